#!/usr/bin/env python3
"""Writes harness/src/prototab.rs from harness/orc_proto.proto (a copy of the published definition)."""
import os, re
here = os.path.dirname(os.path.abspath(__file__))
src = open(os.path.join(here, "../harness/orc_proto.proto")).read()
src = re.sub(r"/\*.*?\*/", "", src, flags=re.S)
src = re.sub(r"//[^\n]*", "", src)
toks = re.findall(r"[A-Za-z_][\w.]*|\d+|\"[^\"]*\"|[{}=;\[\]]", src)
pos = 0
messages, enums = [], []
def parse_enum(i, prefix):
    name = prefix + toks[i + 1]
    i += 3
    vals = []
    while toks[i] != "}":
        vals.append((toks[i], int(toks[i + 2])))
        i += 4
    enums.append((name, vals))
    return i + 1
def parse_message(i):
    name = toks[i + 1]
    i += 3
    fields, local = [], {}
    while toks[i] != "}":
        if toks[i] == "enum":
            local[toks[i + 1]] = name + "_" + toks[i + 1]
            i = parse_enum(i, name + "_")
            continue
        label, ty, fname, num = toks[i], toks[i + 1], toks[i + 2], int(toks[i + 4])
        i += 5
        packed = False
        if toks[i] == "[":
            packed = "packed" in toks[i:i + 5] and toks[i + 3] == "true"
            while toks[i] != "]": i += 1
            i += 1
        assert toks[i] == ";", toks[i - 5:i + 3]
        i += 1
        fields.append((num, fname, ty, label, packed))
    messages.append((name, fields, local))
    return i + 1
i = 0
while i < len(toks):
    if toks[i] == "message": i = parse_message(i)
    elif toks[i] == "enum": i = parse_enum(i, "")
    else: i += 1
enames = {e for e, _ in enums}
mnames = [m for m, _, _ in messages]
SC = {"sint64": "Sint64", "sint32": "Sint32", "uint64": "Uint64", "uint32": "Uint32", "double": "Double", "bool": "Bool", "string": "Str", "bytes": "Bytes", "fixed64": "Fixed64"}
o = ["//! Generated by tools/gen_protos.py from orc_proto.proto; do not edit.", "use crate::protos::*;", "use crate::protos::Kind::*;", "use orc_format::protos::orc_proto as p;", "use protobuf::{ProtobufEnum, RepeatedField};", ""]
o.append("pub static ENUMS: &[(&str, &[(&str, i32)])] = &[")
for n, v in enums: o.append(f'    ("{n}", &[{", ".join(f"(\"{a}\", {b})" for a, b in v)}]),')
o.append("];\n")
o.append("pub static MESSAGES: &[Desc] = &[")
def kind(ty, local):
    if ty in SC: return SC[ty]
    e = local.get(ty, ty)
    if e in enames: return f"Enum({[n for n, _ in enums].index(e)})"
    return f"Message({mnames.index(ty)})"
for n, fs, local in messages:
    o.append(f'    Desc {{ name: "{n}", fields: &[')
    for num, fn, ty, label, packed in fs:
        o.append(f'        Field {{ num: {num}, name: "{fn}", kind: {kind(ty, local)}, repeated: {str(label == "repeated").lower()}, packed: {str(packed).lower()} }},')
    o.append("    ] },")
o.append("];\n")
for n, fs, local in messages:
    o.append(f"impl Msgs for p::{n} {{")
    o.append(f"    const ID: usize = {mnames.index(n)};")
    o.append("    fn view(&self) -> M {\n        let mut m = M::default();")
    def toV(ty, e):
        if ty in ("sint64", "sint32"): return f"V::I({e} as i64)"
        if ty in ("uint64", "uint32", "fixed64", "bool"): return f"V::U({e} as u64)"
        if ty == "double": return f"V::U({e}.to_bits())"
        if ty == "string": return f"V::B({e}.as_bytes().to_vec())"
        if ty == "bytes": return f"V::B({e}.to_vec())"
        if local.get(ty, ty) in enames: return f"V::I({e}.value() as i64)"
        return f"V::M({e}.view())"
    def fromV(ty, e):
        if ty == "sint64": return f"{e}.i()"
        if ty == "sint32": return f"{e}.i() as i32"
        if ty in ("uint64", "fixed64"): return f"{e}.u()"
        if ty == "uint32": return f"{e}.u() as u32"
        if ty == "bool": return f"({e}.u() != 0)"
        if ty == "double": return f"f64::from_bits({e}.u())"
        if ty == "string": return f"String::from_utf8({e}.b()).unwrap()"
        if ty == "bytes": return f"{e}.b()"
        if local.get(ty, ty) in enames: return f"p::{local.get(ty, ty)}::from_i32({e}.i() as i32).unwrap()"
        return f"p::{ty}::build({e}.m())"
    for num, fn, ty, label, packed in fs:
        scalar = ty in ("sint64", "sint32", "uint64", "uint32", "fixed64", "bool", "double")
        if label == "repeated":
            x = "*x" if scalar else "x"
            o.append(f"        for x in self.get_{fn}().iter() {{ m.f.entry({num}).or_default().push({toV(ty, x)}); }}")
        else:
            o.append(f"        if self.has_{fn}() {{ m.f.entry({num}).or_default().push({toV(ty, f'self.get_{fn}()')}); }}")
    o.append("        m.unknown(&self.unknown_fields);\n        m\n    }")
    o.append(f"    fn build(m: &M) -> Self {{\n        let mut x = p::{n}::new();\n        for (n, vs) in &m.f {{ match n {{")
    for num, fn, ty, label, packed in fs:
        scalar = ty in ("sint64", "sint32", "uint64", "uint32", "fixed64", "bool", "double")
        if label == "repeated":
            e = f"vs.iter().map(|v| {fromV(ty, 'v')}).collect::<Vec<_>>()"
            if not scalar: e = f"RepeatedField::from_vec({e})"
            o.append(f"            {num} => x.set_{fn}({e}),")
        else:
            o.append(f"            {num} => x.set_{fn}({fromV(ty, 'vs[0]')}),")
    o.append("            _ => unreachable!(),\n        } }\n        x\n    }")
    o.append("    fn accessors(m: &M) -> Result<(), String> {")
    for num, fn, ty, label, packed in fs:
        scalar = ty in ("sint64", "sint32", "uint64", "uint32", "fixed64", "bool", "double")
        isenum = local.get(ty, ty) in enames
        o.append(f"        {{\n            let mut x = Self::build(m);")
        o.append(f"            let mut rest = m.clone(); let had = rest.f.remove(&{num});")
        if label == "repeated":
            xx = "*x" if scalar else "x"
            o.append(f"            let taken: Vec<V> = x.take_{fn}().iter().map(|x| {toV(ty, xx)}).collect();")
            o.append(f'            same("{n}.take_{fn}", &taken, had.as_deref().unwrap_or(&[]))?;')
            o.append(f'            same_m("{n} after take_{fn}", &x.view(), &rest)?;')
            o.append(f"            let mut x = Self::build(m); if let Some(h) = &had {{ x.mut_{fn}().push({fromV(ty, 'h[0]')}); }}")
            o.append(f"            let mut more = m.clone(); if let Some(h) = &had {{ more.f.get_mut(&{num}).unwrap().push(h[0].clone()); }}")
            o.append(f'            same_m("{n} after mut_{fn}", &x.view(), &more)?;')
            o.append(f"            x.clear_{fn}();")
            o.append(f'            same_m("{n} after clear_{fn}", &x.view(), &rest)?;')
        else:
            o.append(f'            if x.has_{fn}() != had.is_some() {{ return Err("{n}.has_{fn}".into()); }}')
            if not scalar and not isenum:
                o.append(f"            let taken = x.take_{fn}();")
                o.append(f'            if let Some(h) = &had {{ same("{n}.take_{fn}", &[{toV(ty, "taken")}], h)?; }}')
                o.append(f'            same_m("{n} after take_{fn}", &x.view(), &rest)?;')
                o.append(f"            let mut x = Self::build(m); let _ = x.mut_{fn}(); if had.is_some() {{ same_m(\"{n} after mut_{fn}\", &x.view(), m)?; }} else if !x.has_{fn}() {{ return Err(\"{n}.mut_{fn} does not set the field\".into()); }}")
            o.append(f"            x.clear_{fn}();")
            o.append(f'            same_m("{n} after clear_{fn}", &x.view(), &rest)?;')
            d = {"sint64": "V::I(0)", "sint32": "V::I(0)", "string": "V::B(vec![])", "bytes": "V::B(vec![])"}.get(ty)
            if d is None:
                if scalar: d = "V::U(0)"
                elif isenum: d = f"V::I({dict(enums)[local.get(ty, ty)][0][1]})"
                else: d = "V::M(M::default())"
            o.append(f'            same("default of {n}.{fn}", &[{toV(ty, f"x.get_{fn}()")}], &[{d}])?;')
        o.append("        }")
    o.append("        Ok(())\n    }\n}\n")
o.append("pub fn ops(id: usize) -> Box<dyn Ops + Sync> {\n    match id {")
for i, n in enumerate(mnames): o.append(f"        {i} => Box::new(Of::<p::{n}>(std::marker::PhantomData)),")
o.append("        _ => unreachable!(),\n    }\n}\n")
o.append("pub fn enums() -> Result<(), String> {")
for n, vals in enums:
    o.append(f'    {{ let vs = p::{n}::values(); if vs.len() != {len(vals)} {{ return Err("{n}: number of values".into()); }}')
    for a, b in vals: o.append(f'      if p::{n}::{a}.value() != {b} || p::{n}::from_i32({b}) != Some(p::{n}::{a}) || !vs.contains(&p::{n}::{a}) || p::{n}::{a}.descriptor().name() != "{a}" {{ return Err("{n}::{a}".into()); }}')
    o.append(f'      for i in -5..100 {{ if p::{n}::from_i32(i).is_some() != [{", ".join(str(b) for _, b in vals)}].contains(&i) {{ return Err(format!("{n}::from_i32({{}})", i)); }} }}')
    o.append(f'      if p::{n}::default() != p::{n}::{vals[0][0]} {{ return Err("{n}::default".into()); }} }}')
o.append("    Ok(())\n}\n")
open(os.path.join(here, "../harness/src/prototab.rs"), "w").write("\n".join(o))
