#!/usr/bin/env python3
"""Stands in for the cxx code generator: reads the bridge module of lib.rs.

  cxxgen.py lib.rs OUT            writes OUT/trajoptlib/src/lib.rs.h
  cxxgen.py lib.rs OUT --rust     also writes OUT/shim.cpp and OUT/lib.rs (the
                                  bridge module expanded, the rest verbatim)
"""
import os, re, sys


def strip_comments(s):
    out, i = [], 0
    while i < len(s):
        if s.startswith("//", i):
            j = s.find("\n", i); j = len(s) if j < 0 else j
            out.append(" " * (j - i)); i = j
        elif s.startswith("/*", i):
            j = s.find("*/", i) + 2
            out.append(re.sub(r"[^\n]", " ", s[i:j])); i = j
        elif s[i] == '"':
            j = i + 1
            while s[j] != '"': j += 2 if s[j] == "\\" else 1
            out.append(s[i:j + 1]); i = j + 1
        else:
            out.append(s[i]); i += 1
    return "".join(out)


def match(s, i, o, c):
    """Index just past the bracket that closes the one at i."""
    assert s[i] == o
    d = 0
    while True:
        if s[i] == '"':
            i += 1
            while s[i] != '"': i += 2 if s[i] == "\\" else 1
        if s[i] == o: d += 1
        elif s[i] == c:
            d -= 1
            if d == 0: return i + 1
        i += 1


def split_top(s, sep=","):
    out, d, cur = [], 0, ""
    for k, ch in enumerate(s):
        if ch in "(<[{": d += 1
        elif ch in ")]}" or (ch == ">" and s[k - 1] != "-"): d -= 1
        if ch == sep and d == 0: out.append(cur); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur)
    return [x.strip() for x in out if x.strip()]


class Bridge:
    def __init__(self, src):
        text = strip_comments(src)
        m = re.search(r"#\s*\[\s*cxx\s*::\s*bridge\s*(\((.*?)\))?\s*\]\s*((?:pub(?:\s*\([^)]*\))?\s+)?)mod\s+(\w+)\s*\{", text, re.S)
        if not m: raise SystemExit("no cxx bridge module found")
        ns = re.search(r'namespace\s*=\s*"?([\w:]+)"?', m.group(2) or "")
        self.ns = ns.group(1) if ns else ""
        self.vis, self.mod = m.group(3).strip(), m.group(4)
        end = match(text, m.end() - 1, "{", "}")
        self.span = (m.start(), end)
        body = text[m.end():end - 1]
        self.structs, self.fns, self.types, self.includes = [], [], [], []
        i = 0
        attrs = []
        while True:
            while i < len(body) and body[i].isspace(): i += 1
            if i >= len(body): break
            if body[i] == "#":
                j = body.index("[", i); k = match(body, j, "[", "]")
                attrs.append(body[j + 1:k - 1].strip()); i = k; continue
            m2 = re.match(r"(?:pub(?:\s*\([^)]*\))?\s+)?struct\s+(\w+)\s*\{", body[i:])
            if m2:
                j = i + m2.end() - 1; k = match(body, j, "{", "}")
                fields = []
                for f in split_top(body[j + 1:k - 1]):
                    fattrs = []
                    while f.startswith("#"):
                        e = match(f, f.index("["), "[", "]"); fattrs.append(f[:e]); f = f[e:].strip()
                    f = re.sub(r"^pub(\s*\([^)]*\))?\s+", "", f)
                    n, t = f.split(":", 1)
                    fields.append((n.strip(), re.sub(r"\s+", "", t), fattrs))
                self.structs.append((m2.group(1), fields, attrs)); attrs = []; i = k; continue
            m2 = re.match(r'(unsafe\s+)?extern\s+"C\+\+"\s*\{', body[i:])
            if m2:
                j = i + m2.end() - 1; k = match(body, j, "{", "}")
                self.extern(body[j + 1:k - 1]); attrs = []; i = k; continue
            m2 = re.match(r"use\s[^;]*;", body[i:])
            if m2: i += m2.end(); continue
            raise SystemExit("bridge item not understood: " + body[i:i + 120])

    def extern(self, s):
        for it in split_top(s.replace("->", "\1"), ";"):
            it = re.sub(r"#\s*\[[^\]]*\]", "", it.replace("\1", "->")).strip()
            m = re.match(r'include!\s*\(\s*"([^"]*)"\s*\)', it)
            if m: self.includes.append(m.group(1)); continue
            m = re.match(r"type\s+(\w+)$", it)
            if m: self.types.append(m.group(1)); continue
            m = re.match(r"(?:pub\s+)?(?:unsafe\s+)?fn\s+(\w+)\s*\(", it, re.S)
            if not m: raise SystemExit("bridge function not understood: " + it)
            k = match(it, m.end() - 1, "(", ")")
            args = [tuple(re.sub(r"\s+", " ", y).strip() for y in a.split(":", 1)) if ":" in a else (a.strip(), None) for a in split_top(it[m.end():k - 1])]
            rest = it[k:].strip()
            ret = rest[2:].strip() if rest.startswith("->") else ""
            self.fns.append((m.group(1), args, re.sub(r"\s+", "", ret)))


PRIM = dict(f64="double", f32="float", usize="std::size_t", isize="std::ptrdiff_t", i64="std::int64_t", u64="std::uint64_t", i32="std::int32_t", u32="std::uint32_t",
            i16="std::int16_t", u16="std::uint16_t", i8="std::int8_t", u8="std::uint8_t", bool="bool", String="rust::String")


def cpp(t):
    t = t.replace("mut ", "mut~").replace(" ", "").replace("mut~", "mut ")
    if t in PRIM: return PRIM[t]
    m = re.match(r"Vec<(.*)>$", t)
    if m: return f"rust::Vec<{cpp(m.group(1))}>"
    m = re.match(r"UniquePtr<(.*)>$", t)
    if m: return f"std::unique_ptr<{cpp(m.group(1))}>"
    m = re.match(r"&mut (.*)$", t)
    if m: return cpp(m.group(1)) + "&"
    if t.startswith("&"): return f"const {cpp(t[1:])}&"
    m = re.match(r"fn\((.*)\)(?:->(.*))?$", t)
    if m:
        a = [x.split(":")[-1] if "::" not in x else x for x in split_top(m.group(1))]
        return f"rust::Fn<{cpp(m.group(2)) if m.group(2) else 'void'}({', '.join(map(cpp, a))})>"
    if re.match(r"\w+$", t): return t
    raise SystemExit("bridge type not understood: " + t)


def receiver(args):
    """(is method, type, const)"""
    if not args: return None
    n, t = args[0]
    if n == "self" and t:
        m = re.match(r"Pin\s*<\s*&\s*mut\s+(\w+)\s*>", t)
        if m: return m.group(1), False
        m = re.match(r"&\s*(\w+)$", t)
        if m: return m.group(1), True
    if n.startswith("&") and n.endswith("self"): return None if "mut" in n else ("?", True)
    return None


def header(b):
    o = ["// Generated from the bridge module.", "#pragma once", "#include <cstddef>", "#include <cstdint>", "#include <memory>", "#include <type_traits>", "#include <rust/cxx.h>"]
    o += [f'#include "{i}"' for i in b.includes]
    if b.ns: o.append(f"namespace {b.ns} {{")
    o += [f"struct {n};" for n, _, _ in b.structs]
    for n, fields, _ in b.structs:
        o.append(f"struct {n} final {{")
        o += [f"  {cpp(t)} {f}{'' if t.startswith('Vec') or not t[0].islower() else ' = 0' if t != 'bool' else ' = false'};" for f, t, _ in fields]
        o += ["  using IsRelocatable = std::true_type;", "};"]
    if b.ns: o.append(f"}}  // namespace {b.ns}")
    return "\n".join(o) + "\n"


def shim(b):
    o = ['#include "trajoptlib/src/lib.rs.h"', '#include "wire.hpp"', "using namespace wire;"]
    if b.ns: o.append(f"using namespace {b.ns};")
    o.append("namespace wire {")
    for n, fields, _ in b.structs:
        o.append(f"void Put(Out& o, const {n}& x);\nvoid Get(In& i, {n}& x);")
    for n, fields, _ in b.structs:
        o.append(f"void Put(Out& o, const {n}& x) {{ " + " ".join(f"Put(o, x.{f});" for f, _, _ in fields) + " }")
        o.append(f"void Get(In& i, {n}& x) {{ " + " ".join(f"Get(i, x.{f});" for f, _, _ in fields) + " }")
    o.append("}  // namespace wire")
    for t in b.types:
        o.append(f'extern "C" void cxxstandin_drop_{t}(void* p) {{ delete static_cast<{t}*>(p); }}')
    for n, args, ret in b.fns:
        rec = receiver(args)
        params = args[1:] if rec else args
        result = re.match(r"Result<(.*)>$", ret)
        r = result.group(1) if result else ret
        r = "" if r == "()" else r
        rt = cpp(r) if r else "void"
        for a, t in params:
            m = re.match(r"fn\s*\((.*)\)", t)
            if m: o.append(f'extern "C" void cxxstandin_callback_{n}_{a}(std::size_t f, const unsigned char* p, std::size_t n);')
        o.append(f'extern "C" int cxxstandin_{n}(void* self, const unsigned char* p, std::size_t n, void* out) {{')
        o.append("  In in{p, n}; Out& o = *static_cast<Out*>(out); (void)self; (void)o;")
        names = []
        for a, t in params:
            if re.match(r"fn\s*\(", t):
                sig = cpp(t)[len("rust::Fn<void("):-2]
                ps = split_top(sig)
                o.append(f"  std::size_t raw_{a}; Get(in, raw_{a});")
                o.append(f"  {cpp(t)} {a}{{[](" + ", ".join(f"{p} a{k}" for k, p in enumerate(ps)) + f"{', ' if ps else ''}void* f) {{ Out o; " + " ".join(f"Put(o, a{k});" for k in range(len(ps))) +
                         f" cxxstandin_callback_{n}_{a}(reinterpret_cast<std::size_t>(f), o.b.data(), o.b.size()); }}, reinterpret_cast<void*>(raw_{a})}};")
                names.append(a)
            else:
                ct = cpp(t)
                base = re.sub(r"^const (.*)&$", r"\1", ct)
                o.append(f"  {base} {a}{{}}; Get(in, {a});")
                names.append(a if base != ct else f"std::move({a})")
        o.append("  if (!in.Done()) return 3;")
        sig = ", ".join(cpp(t) for _, t in params)
        if rec:
            T, const = rec
            T = b.types[0] if T == "?" else T
            o.append(f"  {rt} ({T}::*m)({sig}){' const' if const else ''} = &{T}::{n};")
            call = f"(static_cast<{'const ' if const else ''}{T}*>(self)->*m)({', '.join(names)})"
        else:
            o.append(f"  {rt} (*m)({sig}) = &{b.ns + '::' if b.ns else ''}{n};")
            call = f"m({', '.join(names)})"
        up = re.match(r"UniquePtr<", r)
        do = f"{call};" if not r else (f"auto r = {call}; Put(o, reinterpret_cast<std::size_t>(r.release()));" if up else f"auto r = {call}; Put(o, r);")
        if result:
            o.append(f"  try {{ {do} return 0; }} catch (const std::exception& e) {{ o.b.clear(); o.Text(e.what()); return 1; }}")
        else:
            # As in cxx: an exception out of a function that is not declared to fail ends the program.
            o.append(f"  [&]() noexcept {{ {do} }}(); return 0;")
        o.append("}")
    return "\n".join(o) + "\n"


def rust(b, src):
    o = [f"{b.vis} mod {b.mod} {{".strip(), "    #![allow(dead_code, unused_imports, clippy::all)]", "    use ::cxx::wire::{Get, Put, Reader};", "    use ::cxx::UniquePtr;", "    use ::std::pin::Pin;"]
    for n, fields, attrs in b.structs:
        for a in attrs:
            a = re.sub(r"\b(De)?[sS]erialize\b", lambda m: "::serde::" + m.group(0), a) if a.startswith("derive") and "::serde" not in a and "serde::" not in a else a
            o.append(f"    #[{a}]")
        o.append(f"    pub struct {n} {{")
        for f, t, fa in fields: o.append(f"        {' '.join(fa)} pub {f}: {t},")
        o.append("    }")
        o.append(f"    impl Put for {n} {{ fn put(&self, o: &mut Vec<u8>) {{ " + " ".join(f"self.{f}.put(o);" for f, _, _ in fields) + " } }")
        o.append(f"    impl Get for {n} {{ fn get(i: &mut Reader) -> Self {{ " + " ".join(f"let f_{f} = Get::get(i);" for f, _, _ in fields) + f" {n} {{ " + ", ".join(f"{f}: f_{f}" for f, _, _ in fields) + " } } }")
    for t in b.types:
        o.append(f"    #[repr(C)] pub struct {t} {{ _private: [u8; 0] }}")
        o.append(f'    extern "C" {{ fn cxxstandin_drop_{t}(p: *mut ::std::ffi::c_void); }}')
        o.append(f"    impl ::cxx::Opaque for {t} {{ unsafe fn drop_raw(p: *mut Self) {{ cxxstandin_drop_{t}(p as *mut _) }} }}")
    for n, args, ret in b.fns:
        rec = receiver(args)
        params = args[1:] if rec else args
        result = re.match(r"Result<(.*)>$", ret)
        r = result.group(1) if result else ret
        rr = f"Result<{r}, ::cxx::Exception>" if result else (r or "()")
        o.append(f'    extern "C" {{ fn cxxstandin_{n}(s: *mut ::std::ffi::c_void, p: *const u8, n: usize, out: *mut ::std::ffi::c_void) -> i32; }}')
        puts = []
        for a, t in params:
            m = re.match(r"fn\s*\((.*)\)", t)
            if m:
                ps = [x.strip() for x in split_top(m.group(1))]
                o.append(f"    #[no_mangle] extern \"C\" fn cxxstandin_callback_{n}_{a}(f: usize, p: *const u8, n: usize) {{")
                o.append(f"        let f: fn({', '.join(ps)}) = unsafe {{ ::std::mem::transmute(f) }};")
                o.append("        let mut i = Reader::new(p, n);")
                for k, p in enumerate(ps): o.append(f"        let a{k}: {p} = Get::get(&mut i);")
                o.append(f"        f({', '.join(f'a{k}' for k in range(len(ps)))});\n    }}")
                puts.append(f"({a} as usize).put(&mut o);")
            else:
                puts.append(f"{a}.put(&mut o);")
        body = "let mut o: Vec<u8> = Vec::new(); " + " ".join(puts)
        selfp = "::std::ptr::null_mut()"
        ps = ", ".join(f"{a}: {t}" for a, t in params)
        if rec:
            T, const = rec
            T = b.types[0] if T == "?" else T
            recv = "&self" if const else "self: Pin<&mut Self>"
            selfp = "self as *const Self as *mut ::std::ffi::c_void" if const else "unsafe { self.get_unchecked_mut() as *mut Self as *mut ::std::ffi::c_void }"
            ps = recv + (", " + ps if ps else "")
        call = f"let s = {selfp}; let (rc, back) = ::cxx::wire::call(|out| unsafe {{ cxxstandin_{n}(s, o.as_ptr(), o.len(), out) }}); assert!(rc != 3, \"bridge arguments of {n} differ\"); let mut i = Reader::over(&back);"
        if result:
            done = f"if rc == 1 {{ return Err(::cxx::Exception::new(String::from_utf8_lossy(&back).into_owned())); }} Ok({'()' if r == '()' else f'<{r} as Get>::get(&mut i)'})"
        elif r: done = f"<{r} as Get>::get(&mut i)"
        else: done = "let _ = i;"
        fn = f"pub fn {n}({ps}) -> {rr} {{ {body} {call} {done} }}"
        o.append(f"    impl {T} {{ {fn} }}" if rec else f"    {fn}")
    o.append("}")
    return src[:b.span[0]] + "\n".join(o) + src[b.span[1]:]


def main():
    src = open(sys.argv[1]).read()
    out = sys.argv[2]
    b = Bridge(src)
    d = os.path.join(out, "trajoptlib", "src")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "lib.rs.h"), "w") as f: f.write(header(b))
    if "--rust" in sys.argv:
        with open(os.path.join(out, "shim.cpp"), "w") as f: f.write(shim(b))
        with open(os.path.join(out, "lib.rs"), "w") as f: f.write(rust(b, src))


if __name__ == "__main__": main()
