EXP = "include/trajopt/util/expected"
GEN = "src/SwerveTrajectoryGenerator.cpp"
HT = "include/trajopt/trajectory/HolonomicTrajectory.hpp"
PB = "src/path/SwervePathBuilder.cpp"
PBH = "include/trajopt/path/SwervePathBuilder.hpp"
LG = "include/trajopt/util/GenerateLinearInitialGuess.hpp"
TU = "include/trajopt/util/TrajoptUtil.hpp"
ROT = "include/trajopt/geometry/Rotation2.hpp"
TRA = "include/trajopt/geometry/Translation2.hpp"
# ---- the result type
bug("C24-self-assign", prop="C24", needs="assigning a result with an error to one with a different error, whose wrapper is kept", breaks="an error does not replace an error when copied from a const object",
    edits=[(EXP, "      if (!rhs.m_has_val) {\n        geterr() = std::forward<Rhs>(rhs).geterr();\n      }\n    }\n  }\n", "      if (!rhs.m_has_val) {\n        if constexpr (std::is_lvalue_reference<Rhs>::value ||\n                      !std::is_trivially_copyable<E>::value) {\n          geterr() = std::forward<Rhs>(rhs).geterr();\n        }\n      }\n    }\n  }\n")])
bug("C24-void-assign", prop="C24", needs="assigning between void results that both hold an error", breaks="the old error stays when moved from",
    edits=[(EXP, "        construct();\n      } else {\n        geterr() = std::forward<Rhs>(rhs).geterr();\n      }\n", "        construct();\n      } else if constexpr (std::is_lvalue_reference<Rhs>::value) {\n        geterr() = std::forward<Rhs>(rhs).geterr();\n      }\n")])
bug("C24-map-error-const", prop="C24", needs="map_error on a void result holding an error, mapped to void", breaks="a void handler is not called",
    edits=[(EXP, "  if (exp.has_value()) {\n    return result();\n  }\n\n  detail::invoke(std::forward<F>(f), std::forward<Exp>(exp).error());\n  return result(unexpect, monostate{});\n}\n#else", "  if (exp.has_value()) {\n    return result();\n  }\n\n  return result(unexpect, monostate{});\n}\n#else")])
bug("C24-or-else-void", prop="C24", needs="or_else with a handler that returns nothing, on a temporary", breaks="the error is moved into the handler's argument and lost",
    edits=[(EXP, "detail::decay_t<Exp> or_else_impl(Exp&& exp, F&& f) {\n  return exp.has_value() ? std::forward<Exp>(exp)\n                         : (detail::invoke(std::forward<F>(f),\n                                           std::forward<Exp>(exp).error()),\n                            std::forward<Exp>(exp));\n}\n#else", "detail::decay_t<Exp> or_else_impl(Exp&& exp, F&& f) {\n  if (exp.has_value()) {\n    return std::forward<Exp>(exp);\n  }\n  auto e = std::forward<Exp>(exp).error();\n  detail::invoke(std::forward<F>(f), std::move(e));\n  return std::forward<Exp>(exp);\n}\n#else")])
bug("C24-value-copies", prop="C24", needs="value() on a temporary result with an error", breaks="the exception of value() on a const temporary carries a default error",
    edits=[(EXP, "  TRAJOPT_EXPECTED_11_CONSTEXPR U&& value() && {\n    if (!has_value())\n      detail::throw_exception(bad_expected_access<E>(std::move(err()).value()));\n    return std::move(val());\n  }\n", "  TRAJOPT_EXPECTED_11_CONSTEXPR U&& value() && {\n    if (!has_value()) {\n      E e = std::move(err()).value();\n      detail::throw_exception(bad_expected_access<E>(std::move(err()).value()));\n    }\n    return std::move(val());\n  }\n")])
bug("C24-convert-moves", prop="C24", needs="constructing a result from one of another type", breaks="converting from a const result of other types takes the error for a value when it is falsy",
    edits=[(EXP, "    if (rhs.has_value()) {\n      this->construct(*rhs);\n    } else {\n      this->construct_error(rhs.error());\n    }\n  }\n\n  template <\n      class U, class G,\n      detail::enable_if_t<(std::is_convertible<U const&, T>", "    if (static_cast<bool>(rhs)) {\n      this->construct(*rhs);\n    } else {\n      this->construct_error(E());\n    }\n  }\n\n  template <\n      class U, class G,\n      detail::enable_if_t<(std::is_convertible<U const&, T>")])
bug("C24-swap-errors", prop="C24", needs="swapping two results that both hold errors", breaks="the second error wins",
    edits=[(EXP, "      using std::swap;\n      swap(err(), rhs.err());\n", "      err() = rhs.err();\n")])
bug("C25-emplace-early", prop="C25", needs="an emplace that throws over an error", breaks="the result claims to hold a value after a failed emplace",
    edits=[(EXP, "      auto tmp = std::move(err());\n      err().~unexpected<E>();\n\n#ifdef TRAJOPT_EXPECTED_EXCEPTIONS_ENABLED\n      try {\n        ::new (valptr()) T(il, std::forward<Args>(args)...);\n        this->m_has_val = true;\n", "      auto tmp = std::move(err());\n      err().~unexpected<E>();\n\n#ifdef TRAJOPT_EXPECTED_EXCEPTIONS_ENABLED\n      try {\n        this->m_has_val = true;\n        ::new (valptr()) T(il, std::forward<Args>(args)...);\n")])
bug("C25-assign-early", prop="C25", needs="a copy that throws while assigning a value over an error", breaks="the error is destroyed before the copy",
    edits=[(EXP, "      T tmp = rhs.get();\n      geterr().~unexpected<E>();\n      construct(std::move(tmp));\n", "      geterr().~unexpected<E>();\n      T tmp = rhs.get();\n      construct(std::move(tmp));\n")])
bug("C25-swap-order", prop="C25", needs="swapping a value with an error whose move throws", breaks="the value is not put back",
    edits=[(EXP, "    } catch (...) {\n      ::new (valptr()) T(std::move(temp));\n      throw;\n    }\n#else\n    ::new (errptr()) unexpected_type(std::move(rhs.err()));", "    } catch (...) {\n      this->m_has_val = false;\n      throw;\n    }\n#else\n    ::new (errptr()) unexpected_type(std::move(rhs.err()));")])
bug("C25-replaced-value", prop="C25", needs="replacing a value by an error", breaks="the old value is not destroyed for some types",
    edits=[(EXP, "      unexpected<E> tmp(std::forward<Err>(err));\n      destroy_val();\n      construct_error(std::move(tmp));\n", "      unexpected<E> tmp(std::forward<Err>(err));\n      if constexpr (!std::is_nothrow_copy_constructible<T>::value) {\n        construct_error(std::move(tmp));\n      } else {\n        destroy_val();\n        construct_error(std::move(tmp));\n      }\n")])
bug("C25-void-destroy", prop="C25", needs="a void result which held an error being given success", breaks="its error is not destroyed",
    edits=[(EXP, "      if (rhs.m_has_val) {\n        geterr().~unexpected<E>();\n        construct();\n", "      if (rhs.m_has_val) {\n        construct();\n")])
# ---- model
bug("C12-on-axis", prop="C12", needs="a module on the robot's x or y axis", breaks="modules on an axis contribute no torque",
    edits=[(GEN, "      tau_net += r.Cross(F);\n", "      if (translation.X() * translation.Y() != 0.0 ||\n          path.drivetrain.modules.size() < 3) {\n        tau_net += r.Cross(F);\n      }\n")])
bug("C13-cache-torque", prop="C13", needs="modules of equal torque and different radius", breaks="the force limit of the previous module is reused",
    edits=[(GEN, "      double maxForce = wheelMaxTorque / wheelRadius;\n", "      double maxForce =\n          moduleIndex > 0 &&\n                  path.drivetrain.modules.at(moduleIndex - 1).wheelMaxTorque ==\n                      wheelMaxTorque\n              ? wheelMaxTorque /\n                    path.drivetrain.modules.at(moduleIndex - 1).wheelRadius\n              : wheelMaxTorque / wheelRadius;\n")])
bug("C13-axle-speed", prop="C13", needs="a module at the robot's centre", breaks="the wheel speed limit of a centred module is left out",
    edits=[(GEN, "      problem.SubjectTo(vWheelWrtRobot.SquaredNorm() <=\n                        maxWheelVelocity * maxWheelVelocity);\n", "      if (translation.SquaredNorm() > 0.0 || moduleIndex == 0) {\n        problem.SubjectTo(vWheelWrtRobot.SquaredNorm() <=\n                          maxWheelVelocity * maxWheelVelocity);\n      }\n")])
bug("C14-same-column", prop="C14", needs="all modules in one row or column", breaks="the bound is dropped when modules share a coordinate",
    edits=[(GEN, "      if (std::abs(path.drivetrain.modules.at(j).translation.Y() -\n                   path.drivetrain.modules.at(i).translation.Y()) != 0) {\n", "      if (std::abs(path.drivetrain.modules.at(j).translation.Y() -\n                   path.drivetrain.modules.at(i).translation.Y()) != 0 &&\n          path.drivetrain.modules.at(j).translation.X() !=\n              path.drivetrain.modules.at(i).translation.X()) {\n")])
bug("C14-empty-segment-weight", prop="C14", needs="a segment of more than 255 intervals", breaks="its weight wraps",
    edits=[(GEN, "    auto T_sgmt = dt_sgmt * static_cast<int>(N_sgmt);\n", "    auto T_sgmt = dt_sgmt * static_cast<int>(static_cast<uint8_t>(N_sgmt));\n")])
bug("C15-first-as-key", prop="C15", needs="modules of different radii", breaks="step bound uses the first module's radius with each wheel's speed",
    edits=[(GEN, "      problem.SubjectTo(dt.at(sgmtIndex) * module.wheelRadius *\n", "      problem.SubjectTo(dt.at(sgmtIndex) *\n                            path.drivetrain.modules.front().wheelRadius *\n")])
bug("C16-wrapped-step", prop="C16", needs="a turn close to half a turn in one step", breaks="turns above 3 rad in a step start without turn rate",
    edits=[(GEN, "            .Radians() /\n        solution.dt[sampleIndex]);\n", "            .Radians() /\n        solution.dt[sampleIndex]);\n    if (std::abs(omega[sampleIndex].Value()) * solution.dt[sampleIndex] > 3.0) {\n      omega[sampleIndex].SetValue(0.0);\n    }\n")])
bug("C17-two-steps", prop="C17", needs="two segments with the same count", breaks="equal neighbouring counts report the first segment's step",
    edits=[(GEN, "    sleipnir::Variable dt_sgmt = dt.at(sgmtIndex);\n", "    sleipnir::Variable dt_sgmt = dt.at(\n        sgmtIndex > 1 && N.at(sgmtIndex - 1) == N_sgmt && N_sgmt == 1\n            ? sgmtIndex - 1\n            : sgmtIndex);\n")])
bug("C19-unwrap", prop="C19", needs="a heading crossing half a turn", breaks="headings are unwrapped",
    edits=[(HT, "          std::atan2(solution.thetasin.at(samp), solution.thetacos.at(samp)),\n", "          (samp > 0 && solution.thetacos.at(samp) < 0 &&\n                   solution.thetasin.at(samp) < 0 &&\n                   solution.thetasin.at(samp - 1) > 0\n               ? 6.283185307179586\n               : 0.0) +\n              std::atan2(solution.thetasin.at(samp),\n                         solution.thetacos.at(samp)),\n")])
bug("C19-signed-zero", prop="C19", needs="unequal numbers of forces per direction", breaks="forces are cut to the shorter list",
    edits=[(HT, "          solution.moduleFX.at(samp), solution.moduleFY.at(samp));\n    }\n", "          solution.moduleFX.at(samp), solution.moduleFY.at(samp));\n      auto& last = samples.back();\n      if (last.moduleForcesX.size() > last.moduleForcesY.size()) {\n        last.moduleForcesX.resize(last.moduleForcesY.size());\n      }\n    }\n")])
bug("C20-zero-first", prop="C20", needs="the first iteration long after construction", breaks="the clock starts at the first iteration instead of the construction",
    edits=[(GEN, "        auto now = std::chrono::steady_clock::now();\n        if (now - lastFrameTime < timePerFrame) {\n", "        auto now = std::chrono::steady_clock::now();\n        if (self.path.callbacks.size() > 3 && now - lastFrameTime > 60 * timePerFrame) {\n          lastFrameTime = now;\n        }\n        if (now - lastFrameTime < timePerFrame) {\n")])
bug("C20-system-clock", prop="C20", needs="a wall clock set back", breaks="reports stop",
    edits=[(GEN, "[lastFrameTime = std::chrono::steady_clock::now(),", "[lastFrameTime = std::chrono::system_clock::now(),"), (GEN, "        auto now = std::chrono::steady_clock::now();\n", "        auto now = std::chrono::system_clock::now();\n")])
bug("C23-move-callback", prop="C23", needs="a generator copied after it was constructed", breaks="the second generation of a generator keeps the first's last values for fixed variables",
    edits=[(GEN, "  GetCancellationFlag() = 0;\n", "  GetCancellationFlag() = 0;\n  static thread_local size_t runs = 0;\n  if (++runs > 4 && x.size() > 1) {\n    alpha[0].SetValue(runs * 1e-3);\n  }\n")])
# ---- util and geometry
bug("C01-int-index", prop="C01", needs="more than two thousand million samples", breaks="the index overflows",
    edits=[(TU, "  size_t index = 0;\n  if (wptIndex > 0) {\n", "  unsigned index = 0;\n  if (wptIndex > 0) {\n")])
bug("C03-short-way", prop="C03", needs="n equal to one", breaks="one sample is not wrapped",
    edits=[(TU, "  return Linspace(startValue, startValue + diff, numSamples);\n", "  if (numSamples == 1) {\n    return {endValue};\n  }\n  return Linspace(startValue, startValue + diff, numSamples);\n")])
bug("C04-first-front", prop="C04", needs="guess points for the segment into a waypoint whose own guess was set first", breaks="the first waypoint starts from its front point",
    edits=[(LG, "        Linspace(initialGuessPoints.at(wptIndex - 1).back().X(),\n", "        Linspace((wptIndex > 2 ? initialGuessPoints.at(wptIndex - 1).front()\n                               : initialGuessPoints.at(wptIndex - 1).back())\n                     .X(),\n")])
bug("C26-norm-sqrt", prop="C26", needs="very large or tiny translations", breaks="the norm over- or underflows",
    edits=[(TRA, "  constexpr auto Norm() const { return hypot(m_x, m_y); }  // NOLINT\n", "  constexpr auto Norm() const { return sqrt(m_x * m_x + m_y * m_y); }  // NOLINT\n")])
bug("C26-renormalize", prop="C26", needs="a long chain of rotations", breaks="no",
    edits=[(ROT, "  constexpr Rotation2<T> operator-(const Rotation2<T>& other) const {\n    return *this + -other;\n", "  constexpr Rotation2<T> operator-(const Rotation2<T>& other) const {\n    if constexpr (std::same_as<T, double>) {\n      if (m_sin == 0.0 && m_cos == 1.0) {\n        return Rotation2<T>{other.m_cos, other.m_sin};\n      }\n    }\n    return *this + -other;\n")])
