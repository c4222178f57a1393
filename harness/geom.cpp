// C26: numeric geometry against long double plane geometry. C27: symbolic
// geometry against numeric geometry, for every mix of operand kinds.
#include <trajopt/geometry/Pose2.hpp>
#include <trajopt/geometry/Rotation2.hpp>
#include <trajopt/geometry/Translation2.hpp>

#include "mon.hpp"

using mon::Ctx;
using mon::Desc;
using mon::Rng;
using sleipnir::Variable;
using trajopt::Pose2;
using trajopt::Pose2d;
using trajopt::Rotation2;
using trajopt::Rotation2d;
using trajopt::Translation2;
using trajopt::Translation2d;
using L = long double;
static const L kPiL = 3.141592653589793238462643383279502884L;

/// Coordinates of all magnitudes whose squares neither overflow nor vanish.
static double Coord(Rng& r) {
  switch (r.range(0, 9)) {
    case 0: return 0.0;
    case 1: return static_cast<double>(r.range(-10, 10));
    case 2: return -0.0;
    case 3: return r.signedMag(1, 10) * std::pow(10, r.uni(-60, 60));
    case 4: return r.signedMag(1, 10) * std::pow(10, r.uni(-6, 6));
    default: return r.uni(-20, 20);
  }
}
static double Angle(Rng& r) {
  switch (r.range(0, 5)) {
    case 0: return static_cast<double>(r.range(-16, 16)) * std::numbers::pi / 4;
    case 1: return r.uni(-1e6, 1e6);
    case 2: return r.uni(-1e-9, 1e-9);
    case 3: return r.chance(0.5) ? std::numbers::pi : -std::numbers::pi;
    default: return r.uni(-10, 10);
  }
}
static double Scalar(Rng& r) {
  double s = Coord(r);
  return s;
}

static void C26(Ctx& c) {
  c.rule = "a case evaluates every operation of numeric translations, rotations and poses on random operands (magnitudes 1e-60 to 1e60, zeros of both signs, quarter turns, angles up to 1e6 rad); distinct by operands";
  c.assumptions.push_back("tolerance is 1e-13 of the magnitudes an operation combines; coordinates whose squares over- or underflow are not driven");
  c.Cases("numeric", c.N(200000, 4000000), [&](Rng& r) {
    double ax = Coord(r), ay = Coord(r), bx = Coord(r), by = Coord(r), k = Scalar(r), t = Angle(r), u = Angle(r);
    if (r.chance(0.2)) {  // operands which coincide
      switch (r.range(0, 7)) {
        case 0: bx = ax; by = ay; break;
        case 1: bx = -ax; by = -ay; break;
        case 2: bx = -ay; by = ax; break;
        case 3: ay = ax; break;
        case 4: bx = ax; break;
        case 5: by = ay; break;
        case 6: u = t; break;
        default: u = -t;
      }
    }
    Translation2d a{ax, ay}, b{bx, by};
    Rotation2d R{t}, Q{u};
    auto ctx = [&] { return (Desc{} << "a=(" << ax << "," << ay << ") b=(" << bx << "," << by << ") k=" << k << " t=" << t << " u=" << u).str(); };
    c.Distinct(ctx());
    c.Sample(ctx());
    auto eq = [&](double got, L want, L scale, const char* what) {
      L tol = 1e-13L * scale + 1e-300L;
      c.Check(std::abs((L)got - want) <= tol, what, [&] { return (Desc{} << what << ": " << got << " instead of " << want << " for " << ctx()).str(); });
    };
    auto eqT = [&](const Translation2d& g, L x, L y, L scale, const char* what) {
      eq(g.X(), x, scale, what);
      eq(g.Y(), y, scale, what);
    };
    auto A = [](L x) { return x < 0 ? -x : x; };
    L na = std::sqrt((L)ax * ax + (L)ay * ay), nb = std::sqrt((L)bx * bx + (L)by * by);
    // Accessors, structured bindings, conversion.
    const auto [sx, sy] = a;
    c.Check(mon::SameBits(a.X(), ax) && mon::SameBits(a.Y(), ay), "translation-accessors", ctx);
    c.Check(mon::SameBits(sx, ax) && mon::SameBits(sy, ay) && mon::SameBits(trajopt::get<0>(a), ax) && mon::SameBits(trajopt::get<1>(a), ay), "structured-bindings", ctx);
    Translation2d zero;
    c.Check(zero.X() == 0 && zero.Y() == 0, "default-translation", ctx);
    Translation2<L> f{a};
    c.Check(f.X() == ax && f.Y() == ay, "translation-conversion", ctx);
    // Vector space.
    eqT(a + b, (L)ax + bx, (L)ay + by, A(ax) + A(bx) + A(ay) + A(by), "sum");
    eqT(a - b, (L)ax - bx, (L)ay - by, A(ax) + A(bx) + A(ay) + A(by), "difference");
    eqT(-a, -(L)ax, -(L)ay, na, "negation");
    eqT(a * k, (L)ax * k, (L)ay * k, na * A(k), "scaling");
    if (k != 0 && na < 1e120L * A(k)) eqT(a / k, (L)ax / k, (L)ay / k, na / A(k), "division");
    eq(a.Dot(b), (L)ax * bx + (L)ay * by, na * nb, "dot");
    eq(a.Cross(b), (L)ax * by - (L)ay * bx, na * nb, "cross");
    eq(a.Norm(), na, na, "norm");
    eq(a.SquaredNorm(), na * na, na * na, "squared-norm");
    eq(a.Distance(b), std::sqrt(((L)ax - bx) * ((L)ax - bx) + ((L)ay - by) * ((L)ay - by)), na + nb, "distance");
    c.Check(a.Distance(b) == b.Distance(a), "distance-symmetric", ctx);
    // Lengths of vectors whose squares a double cannot hold.
    if (na > 1e-6L && nb > 1e-6L && na < 1e6L && nb < 1e6L && r.chance(0.2)) {
      const double sc = std::ldexp(1.0, r.chance(0.5) ? 700 : -700);
      Translation2d p{ax * sc, ay * sc}, q{bx * sc, by * sc};
      eq(p.Norm() / sc, na, na, "norm-of-extremes");
      eq(p.Distance(q) / sc, std::sqrt(((L)ax - bx) * ((L)ax - bx) + ((L)ay - by) * ((L)ay - by)), na + nb, "distance-of-extremes");
    }
    // Rotations.
    L ct = std::cos((L)t), st = std::sin((L)t), cu = std::cos((L)u), su = std::sin((L)u);
    auto eqR = [&](const Rotation2d& g, L cc, L ss, const char* what) {
      eq(g.Cos(), cc, 10, what);
      eq(g.Sin(), ss, 10, what);
    };
    eqR(R, ct, st, "rotation-from-angle");
    eqR(Rotation2d{}, 1, 0, "default-rotation");
    Rotation2d raw{R.Cos(), R.Sin()};
    c.Check(raw.Cos() == R.Cos() && raw.Sin() == R.Sin(), "rotation-from-components", ctx);
    Rotation2<L> rf{R};
    c.Check(rf.Cos() == R.Cos() && rf.Sin() == R.Sin(), "rotation-conversion", ctx);
    eqR(R + Q, ct * cu - st * su, st * cu + ct * su, "rotation-sum");
    eqR(R.RotateBy(Q), ct * cu - st * su, st * cu + ct * su, "rotation-rotate");
    eqR(R - Q, ct * cu + st * su, st * cu - ct * su, "rotation-difference");
    eqR(-R, ct, -st, "rotation-inverse");
    eqR(R - R, 1, 0, "rotation-self-difference");
    L want = std::remainder((L)t, 2 * kPiL);
    double rad = R.Radians();
    c.Check(rad >= -std::numbers::pi && rad <= std::numbers::pi, "radians-range", ctx);
    c.Check(A(std::remainder((L)rad - want, 2 * kPiL)) < 1e-9L, "radians", [&] { return (Desc{} << rad << " instead of " << want << " for " << ctx()).str(); });
    eq(R.Degrees(), (L)rad * 180 / kPiL, 180, "degrees");
    // Rotating a translation.
    eqT(a.RotateBy(R), (L)ax * ct - (L)ay * st, (L)ax * st + (L)ay * ct, na * 10, "rotate-translation");
    eq(a.RotateBy(R).Norm(), na, na * 10, "rotation-keeps-norm");
    if (na > 0) {
      L ang = std::atan2((L)ay, (L)ax);
      c.Check(A(std::remainder((L)a.Angle().Radians() - ang, 2 * kPiL)) < 1e-12L, "angle", [&] { return (Desc{} << "angle " << a.Angle().Radians() << " instead of " << ang << " for " << ctx()).str(); });
      L got = a.RotateBy(R).Angle().Radians();
      c.Check(A(std::remainder(got - ang - t, 2 * kPiL)) < 1e-9L, "angle-adds", [&] { return (Desc{} << "rotated angle " << got << " for " << ctx()).str(); });
    }
    // Polar construction.
    Translation2d p{k, R};
    eqT(p, k * ct, k * st, A(k) * 10, "polar");
    // Directions given by their components: special ones and those which relate
    // exactly to another.
    {
      const double C = R.Cos(), S = R.Sin();
      static const double axes[][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}, {1, -0.0}, {-1, -0.0}, {-0.0, 1}, {-0.0, -1}};
      double zc, zs;
      switch (r.range(0, 6)) {
        case 0: zc = C; zs = S; break;
        case 1: zc = -C; zs = -S; break;
        case 2: zc = C; zs = -S; break;
        case 3: zc = -S; zs = C; break;
        case 4: zc = S; zs = -C; break;
        default: { auto& x = axes[r.range(0, 7)]; zc = x[0]; zs = x[1]; }
      }
      Rotation2d Z{zc, zs}, W = R;
      if (r.chance(0.3)) { auto& x = axes[r.range(0, 7)]; W = Rotation2d{x[0], x[1]}; }
      const L wc = W.Cos(), ws = W.Sin();
      eqR(W + Z, wc * zc - ws * zs, ws * zc + wc * zs, "components-sum");
      eqR(W.RotateBy(Z), wc * zc - ws * zs, ws * zc + wc * zs, "components-rotate");
      eqR(W - Z, wc * zc + ws * zs, ws * zc - wc * zs, "components-difference");
      eqR(-Z, zc, -(L)zs, "components-inverse");
      eq(Z.Radians(), std::atan2((L)zs, (L)zc), 10, "components-radians");
      eq(Z.Degrees(), std::atan2((L)zs, (L)zc) * 180 / kPiL, 1000, "components-degrees");
      eqT(a.RotateBy(Z), (L)ax * zc - (L)ay * zs, (L)ax * zs + (L)ay * zc, na * 10, "components-rotate-translation");
      eqT(Translation2d{k, Z}, (L)k * zc, (L)k * zs, A(k) * 10, "components-polar");
      Pose2d V = Pose2d{a, W}.RotateBy(Z);
      eqT(V.Translation(), (L)ax * zc - (L)ay * zs, (L)ax * zs + (L)ay * zc, na * 10, "components-rotate-pose-position");
      eqR(V.Rotation(), wc * zc - ws * zs, ws * zc + wc * zs, "components-rotate-pose-heading");
    }
    // Poses.
    Pose2d P{a, R}, P2{ax, ay, Q}, D;
    c.Check(mon::SameBits(P.X(), ax) && mon::SameBits(P.Y(), ay) && mon::SameBits(P.Translation().X(), ax) && mon::SameBits(P.Translation().Y(), ay) && P.Rotation().Cos() == R.Cos() && P.Rotation().Sin() == R.Sin(), "pose-accessors", ctx);
    c.Check(mon::SameBits(P2.X(), ax) && mon::SameBits(P2.Y(), ay) && P2.Rotation().Cos() == Q.Cos() && P2.Rotation().Sin() == Q.Sin(), "pose-from-coordinates", ctx);
    c.Check(D.X() == 0 && D.Y() == 0 && D.Rotation().Cos() == 1 && D.Rotation().Sin() == 0, "default-pose", ctx);
    Pose2d T = P.RotateBy(Q);
    eqT(T.Translation(), (L)ax * cu - (L)ay * su, (L)ax * su + (L)ay * cu, na * 10, "rotate-pose-position");
    eqR(T.Rotation(), ct * cu - st * su, st * cu + ct * su, "rotate-pose-heading");
  });
  // Active probe: Angle() of a translation that is not a unit vector.
  c.Cases("probe", 1, [&](Rng&) {
    Translation2d a{3.0, 4.0};
    Rotation2d R = a.Angle();
    c.Check(std::abs(std::hypot(R.Cos(), R.Sin()) - 1.0) < 1e-9, "known-angle-not-unit", [&] { return (Desc{} << "Translation2(3, 4).Angle() has cosine " << R.Cos() << " and sine " << R.Sin()).str(); });
  });
}

/// One scalar under both interpretations.
struct Num {
  double v;
  Variable var;
};
template <typename T> T Get(const Num& n) {
  if constexpr (std::is_same_v<T, double>) return n.v;
  else return n.var;
}
static double Val(double v) { return v; }
static double Val(Variable v) { return v.Value(); }

static void C27(Ctx& c) {
  c.rule = "a case evaluates every geometry operation for every mix of numeric and symbolic operands, twice: with the values at construction and after all decision variables changed; oracle is the same expression on doubles; "
           "distinct by operand values";
  c.assumptions.push_back("symbolic evaluation is that of the recording stand-in for Sleipnir");
  c.Cases("symbolic", c.N(6000, 150000), [&](Rng& r) {
    sleipnir::OptimizationProblem problem;
    auto num = [&](double v) {
      Num n{v, problem.DecisionVariable()};
      n.var.SetValue(v);
      return n;
    };
    auto away = [&] { double v = r.signedMag(0.1, 10); return r.chance(0.2) ? std::round(v) + (v > 0 ? 1.0 : -1.0) : v; };
    Num ax = num(away()), ay = num(away()), bx = num(away()), by = num(away()), k = num(away()), t = num(r.uni(-9, 9)), u = num(r.uni(-9, 9));
    // A direction given by its components, often along an axis.
    double zt = r.uni(-9, 9);
    int axis = static_cast<int>(r.range(0, 7));
    Num zc = num(axis == 0 ? 1.0 : axis == 1 ? -1.0 : axis == 2 || axis == 3 ? 0.0 : std::cos(zt)), zs = num(axis == 2 ? 1.0 : axis == 3 ? -1.0 : axis < 2 ? 0.0 : std::sin(zt));
    if (r.chance(0.15)) {  // operands which coincide
      Num *from[] = {&ax, &ay, &ax, &t}, *to[] = {&bx, &by, &ay, &u};
      auto w = r.range(0, 3);
      to[w]->v = from[w]->v;
      to[w]->var.SetValue(to[w]->v);
    }
    std::vector<Num*> all{&ax, &ay, &bx, &by, &k, &t, &u, &zc, &zs};
    struct Item { std::string what; std::function<double()> sym, ref; };
    std::vector<Item> items;
    // `kinds`: the symbolic expression with its operand types; `f` evaluates
    // the same generic expression with all operands double.
    auto add = [&](const std::string& what, auto symbolic, std::function<double()> ref) {
      items.push_back({what, [symbolic] { return Val(symbolic); }, ref});
    };
    auto tag = []<typename T>() { return std::is_same_v<T, double> ? "number" : "variable"; };
    auto pair = [&](const std::string& what, auto sym, std::function<Translation2d()> ref) {
      add(what + ".x", sym.X(), [ref] { return ref().X(); });
      add(what + ".y", sym.Y(), [ref] { return ref().Y(); });
    };
    auto rot = [&](const std::string& what, auto sym, std::function<Rotation2d()> ref) {
      add(what + ".cos", sym.Cos(), [ref] { return ref().Cos(); });
      add(what + ".sin", sym.Sin(), [ref] { return ref().Sin(); });
    };
    auto A = [&] { return Translation2d{ax.v, ay.v}; };
    auto B = [&] { return Translation2d{bx.v, by.v}; };
    auto RT = [&] { return Rotation2d{t.v}; };
    auto RU = [&] { return Rotation2d{u.v}; };
    auto RZ = [&] { return Rotation2d{zc.v, zs.v}; };
    auto run = [&]<typename T, typename U>() {
      std::string m = std::string{"<"} + tag.template operator()<T>() + "," + tag.template operator()<U>() + ">";
      Translation2<T> a{Get<T>(ax), Get<T>(ay)};
      Translation2<U> b{Get<U>(bx), Get<U>(by)};
      Rotation2<T> R{Get<T>(t)};
      Rotation2<U> Q{Get<U>(u)};
      U s = Get<U>(k);
      pair("sum" + m, a + b, [=] { return A() + B(); });
      pair("difference" + m, a - b, [=] { return A() - B(); });
      pair("scaling" + m, a * s, [=, &k] { return A() * k.v; });
      pair("division" + m, a / s, [=, &k] { return A() / k.v; });
      pair("rotated" + m, a.RotateBy(Q), [=] { return A().RotateBy(RU()); });
      Rotation2<U> Z{Get<U>(zc), Get<U>(zs)};
      pair("rotated-by-components" + m, a.RotateBy(Z), [=] { return A().RotateBy(RZ()); });
      rot("rotation-rotated-by-components" + m, R.RotateBy(Z), [=] { return RT().RotateBy(RZ()); });
      rot("components-rotated" + m, Z.RotateBy(R), [=] { return RZ().RotateBy(RT()); });
      rot("rotation-rotated" + m, R.RotateBy(Q), [=] { return RT().RotateBy(RU()); });
      add("dot" + m, a.Dot(b), [=] { return A().Dot(B()); });
      add("cross" + m, a.Cross(b), [=] { return A().Cross(B()); });
      add("distance" + m, a.Distance(b), [=] { return A().Distance(B()); });
      if constexpr (std::is_same_v<T, Variable> || std::is_same_v<U, double>)
        pair("polar" + m, Translation2<T>{Get<T>(k), Q}, [=, &k] { return Translation2d{k.v, RU()}; });
      if constexpr (!std::is_same_v<T, double> || !std::is_same_v<U, double>) {
        // Equality as constraints: zero exactly at the right difference.
        auto e = a == b;
        c.Check(e.constraints.size() == 2, "translation-equality-size", m.c_str());
        if (e.constraints.size() == 2) {
          add("translation-equality.x" + m, e.constraints[0], [=] { return A().X() - B().X(); });
          add("translation-equality.y" + m, e.constraints[1], [=] { return A().Y() - B().Y(); });
        }
        auto re = R == Q;
        auto first = re.constraints.empty() ? Variable{NAN} : re.constraints[0];
        add("rotation-equality" + m, first, [=] { return RT().Cos() * RU().Sin() - RT().Sin() * RU().Cos(); });
        Pose2<T> p{a, R};
        Pose2<U> q{b, Q};
        auto pe = p == q;
        // Sum of squares does not depend on the order of the constraints.
        Variable ss = 0.0;
        for (auto& x : pe.constraints) ss += x * x;
        add("pose-equality" + m, ss, [=] {
          double dx = A().X() - B().X(), dy = A().Y() - B().Y(), s = RT().Cos() * RU().Sin() - RT().Sin() * RU().Cos();
          return dx * dx + dy * dy + s * s;
        });
      }
    };
    run.operator()<double, double>();
    run.operator()<Variable, double>();
    run.operator()<double, Variable>();
    run.operator()<Variable, Variable>();
    // Unary operations and conversions.
    Translation2<Variable> a{ax.var, ay.var};
    Rotation2<Variable> R{t.var}, Q{u.var};
    pair("negation", -a, [&] { return -A(); });
    add("norm", a.Norm(), [&] { return A().Norm(); });
    add("squared-norm", a.SquaredNorm(), [&] { return A().SquaredNorm(); });
    add("angle", a.Angle().Radians(), [&] { return A().Angle().Radians(); });
    add("get<0>", trajopt::get<0>(a), [&] { return ax.v; });
    add("get<1>", trajopt::get<1>(a), [&] { return ay.v; });
    rot("rotation", R, RT);
    Rotation2<Variable> Zv{zc.var, zs.var};
    rot("components-sum", R + Zv, [&] { return RT() + RZ(); });
    rot("components-difference", R - Zv, [&] { return RT() - RZ(); });
    rot("components-inverse", -Zv, [&] { return -RZ(); });
    rot("rotation-sum", R + Q, [&] { return RT() + RU(); });
    rot("rotation-difference", R - Q, [&] { return RT() - RU(); });
    rot("rotation-inverse", -R, [&] { return -RT(); });
    add("radians", R.Radians(), [&] { return RT().Radians(); });
    add("degrees", R.Degrees(), [&] { return RT().Degrees(); });
    Rotation2<Variable> raw{ax.var, ay.var};
    add("components.cos", raw.Cos(), [&] { return ax.v; });
    add("components.sin", raw.Sin(), [&] { return ay.v; });
    add("components.radians", raw.Radians(), [&] { return std::atan2(ay.v, ax.v); });
    Pose2<Variable> P{ax.var, ay.var, R}, PP{a, R};
    auto turned = PP.RotateBy(Q);
    pair("pose", P.Translation(), A);
    rot("pose-heading", P.Rotation(), RT);
    pair("pose-rotated", turned.Translation(), [&] { return A().RotateBy(RU()); });
    rot("pose-rotated-heading", turned.Rotation(), [&] { return RT().RotateBy(RU()); });
    add("pose-x", P.X(), [&] { return ax.v; });
    add("pose-y", P.Y(), [&] { return ay.v; });
    // Conversion from numbers: constants, which do not change later.
    {
      Translation2d a0 = A();
      Rotation2d r0 = RT();
      pair("converted-translation", Translation2<Variable>{a0}, [a0] { return a0; });
      rot("converted-rotation", Rotation2<Variable>{r0}, [r0] { return r0; });
      Pose2<Variable> cp{Pose2d{a0, r0}};
      pair("converted-pose", cp.Translation(), [a0] { return a0; });
      rot("converted-pose-heading", cp.Rotation(), [r0] { return r0; });
      Translation2<Variable> none;
      Rotation2<Variable> id;
      pair("default-translation", none, [] { return Translation2d{}; });
      rot("default-rotation", id, [] { return Rotation2d{}; });
    }
    auto judge = [&](const char* when, bool changed) {
      for (auto& it : items) {
        // A purely numeric expression keeps the values it was built with.
        if (changed && it.what.find("<number,number>") != std::string::npos) continue;
        double got = it.sym(), want = it.ref();
        c.Check(std::abs(got - want) <= 1e-9 * (1 + std::abs(want)), it.what, [&] { return (Desc{} << it.what << " " << when << ": " << got << " instead of " << want).str(); });
      }
    };
    judge("with the values at construction", false);
    // Only what the variables hold may change; numeric operands stay.
    std::vector<Item> keep;
    for (auto& it : items) {
      bool mixed = it.what.find("number") != std::string::npos;
      if (!mixed) keep.push_back(it);
    }
    // Mixed expressions: change one side at a time.
    std::vector<double> old;
    for (auto* n : all) old.push_back(n->v);
    std::vector<std::pair<std::string, std::vector<Num*>>> sides{{"<variable,number>", {&ax, &ay, &t}}, {"<number,variable>", {&bx, &by, &u, &k, &zc, &zs}}};
    std::vector<Item> everything = items;
    for (auto& [m, vars] : sides) {
      items.clear();
      // polar mixes roles: its scalar is of the left kind, its angle of the right.
      for (auto& it : everything)
        if (it.what.find(m) != std::string::npos && it.what.find("polar") == std::string::npos) items.push_back(it);
      for (auto* n : vars) { n->v = away(); n->var.SetValue(n->v); }
      judge("after the symbolic side changed", true);
      for (size_t i = 0; i < all.size(); ++i) { all[i]->v = old[i]; all[i]->var.SetValue(old[i]); }
    }
    items = keep;
    for (auto* n : all) { n->v = away(); n->var.SetValue(n->v); }
    judge("after all values changed", true);
    c.Stat("expressions compared", static_cast<int64_t>(everything.size() + keep.size()));
    c.Distinct((Desc{} << ax.v << "," << ay.v << "," << bx.v << "," << t.v << "," << u.v).str());
    c.Sample((Desc{} << "a=(" << ax.v << "," << ay.v << ") b=(" << bx.v << "," << by.v << ") k=" << k.v << " t=" << t.v << " u=" << u.v).str());
  });
}

int main(int argc, char** argv) { return mon::Main(argc, argv, {{"C26", C26}, {"C27", C27}}); }
