//! C19 types, schemas and their serialized forms; C20 scalars
use std::cmp::Ordering;
use std::sync::Arc;

use prost::Message;
use vortex_buffer::{Buffer, BufferString};
use vortex_datetime_dtype::{TemporalJiff, TemporalMetadata, TimeUnit, DATE_ID, TIMESTAMP_ID, TIME_ID};
use vortex_dtype::field::{Field, FieldPath};
use vortex_dtype::{DType, ExtDType, ExtID, ExtMetadata, NativePType, Nullability, PType, StructDType};
use vortex_flatbuffers::{dtype as fbd, scalar as fbs, WriteFlatBuffer};
use vortex_proto::{dtype as pbd, scalar as pbs};
use vortex_scalar::{ListScalar, PValue, PrimitiveScalar, Scalar, ScalarValue, StructScalar};
use vortex_schema::projection::Projection;
use vortex_schema::Schema;

use super::ops::cast_model;
use crate::{Prop, Sub};
use crate::gen::*;
use crate::model::*;
use crate::pbt::*;
use crate::read::*;

type Res = Result<(), String>;

const PTYPES: [PType; 11] = [
    PType::U8,
    PType::U16,
    PType::U32,
    PType::U64,
    PType::I8,
    PType::I16,
    PType::I32,
    PType::I64,
    PType::F16,
    PType::F32,
    PType::F64,
];

fn name(g: &mut G) -> String {
    match g.usize(6) {
        0 => String::new(),
        1 => "a".into(),
        2 => "é日🎉".into(),
        3 => "a.b$[0]\"\\".into(),
        4 => "x".repeat(g.usize(300)),
        _ => format!("f{}", g.usize(6)),
    }
}

fn ext_dtype(g: &mut G) -> ExtDType {
    match g.usize(4) {
        0 | 1 => {
            let Ty::Ext(e, _) = temporal_ty(g, false) else { unreachable!() };
            e
        }
        _ => {
            let md = match g.usize(4) {
                0 => None,
                1 => Some(ExtMetadata::new(Arc::from(vec![]))),
                _ => {
                    let n = g.usize(40);
                    let mut r = g.bulk();
                    Some(ExtMetadata::new(Arc::from((0..n).map(|_| r.next() as u8).collect::<Vec<_>>())))
                }
            };
            ExtDType::new(ExtID::from(format!("vx.{}", name(g)).as_str()), md)
        }
    }
}

pub fn gen_dtype(g: &mut G, d: u32) -> DType {
    let n = nul(g.bool());
    let w = [3, 3, 12, 4, 4, if d < 4 { 8 } else { 0 }, if d < 4 { 6 } else { 0 }, 4];
    match g.weighted(&w) {
        0 => DType::Null,
        1 => DType::Bool(n),
        2 => DType::Primitive(*g.pick(&PTYPES), n),
        3 => DType::Utf8(n),
        4 => DType::Binary(n),
        5 => {
            let k = if g.chance(1, 20) { g.usize(60) } else { g.usize(5) };
            let names: Vec<Arc<str>> = (0..k).map(|_| name(g).into()).collect();
            DType::Struct(StructDType::new(names.into(), (0..k).map(|_| gen_dtype(g, d + 1)).collect()), n)
        }
        6 => DType::List(Arc::new(gen_dtype(g, d + 1)), n),
        _ => DType::Extension(ext_dtype(g), n),
    }
}

fn dsize(d: &DType) -> usize {
    1 + match d {
        DType::Struct(s, _) => s.dtypes().iter().map(dsize).sum(),
        DType::List(e, _) => dsize(e),
        _ => 0,
    }
}

fn fb_bytes<T>(x: &T) -> Vec<u8>
where
    T: WriteFlatBuffer,
{
    let mut b = flatbuffers::FlatBufferBuilder::new();
    let r = x.write_flatbuffer(&mut b);
    b.finish_minimal(r);
    b.finished_data().to_vec()
}

fn opts() -> flatbuffers::VerifierOptions {
    flatbuffers::VerifierOptions { max_tables: 1 << 24, max_depth: 1 << 10, ..Default::default() }
}

fn p_dtype_serde(g: &mut G) -> Res {
    let d = gen_dtype(g, 0);
    g.nontrivial = dsize(&d) > 1;
    g.note(|| format!("{d} {d:?}"));
    let same = |what: &str, x: DType| {
        if x == d {
            Ok(())
        } else {
            Err(format!("dtype round trip | {what}: {d:?} became {x:?}"))
        }
    };
    // protobuf, through bytes
    let bytes = pbd::DType::from(&d).encode_to_vec();
    let m = pbd::DType::decode(bytes.as_slice()).map_err(|e| format!("dtype proto | {e}"))?;
    same("proto", DType::try_from(&m).map_err(|e| format!("dtype proto | {}", e2s(e)))?)?;
    // flatbuffers
    let bytes = fb_bytes(&d);
    let f = flatbuffers::root_with_opts::<fbd::DType>(&opts(), &bytes).map_err(|e| format!("dtype flatbuffer | {e}"))?;
    same("flatbuffer", DType::try_from(f).map_err(|e| format!("dtype flatbuffer | {}", e2s(e)))?)?;
    // serde
    let s = serde_json::to_string(&d).map_err(|e| format!("dtype json | {e}"))?;
    same("json", serde_json::from_str(&s).map_err(|e| format!("dtype json | {e}"))?)?;
    let s = flexbuffers::to_vec(&d).map_err(|e| format!("dtype flexbuffers | {e}"))?;
    same("flexbuffers", flexbuffers::from_slice(&s).map_err(|e| format!("dtype flexbuffers | {e}"))?)?;
    // field paths
    let path: Vec<Field> = (0..g.usize(4)).map(|_| gen_field(g, 5)).collect();
    let fp = FieldPath::from(path.clone());
    let pb = pbd::FieldPath {
        path: path
            .iter()
            .map(|f| pbd::Field {
                field_type: Some(match f {
                    Field::Name(n) => pbd::field::FieldType::Name(n.clone()),
                    Field::Index(i) => pbd::field::FieldType::Index(*i as u64),
                }),
            })
            .collect(),
    };
    let back = FieldPath::try_from(&pb).map_err(|e| format!("field path | {}", e2s(e)))?;
    if back != fp || back.path() != path.as_slice() {
        return Err(format!("field path | {fp} became {back}"));
    }
    let s = serde_json::to_string(&fp).map_err(|e| format!("field path | {e}"))?;
    if serde_json::from_str::<FieldPath>(&s).map_err(|e| format!("field path | {e}"))? != fp {
        return Err(format!("field path | json of {fp}"));
    }
    Ok(())
}

fn gen_field(g: &mut G, n: usize) -> Field {
    if g.bool() {
        Field::Name(name(g))
    } else {
        Field::Index(if g.chance(1, 20) { usize::MAX } else { g.usize(n + 2) })
    }
}

/// malformed serialized types are reported as errors
fn p_dtype_bad(g: &mut G) -> Res {
    let d = gen_dtype(g, 0);
    g.nontrivial = dsize(&d) > 1;
    g.note(|| format!("{d:?}"));
    match g.usize(4) {
        0 => {
            let mut b = pbd::DType::from(&d).encode_to_vec();
            corrupt(g, &mut b);
            if let Ok(m) = pbd::DType::decode(b.as_slice()) {
                if let Ok(x) = DType::try_from(&m) {
                    g.label("accepted");
                    consistent(&x)?;
                }
            }
        }
        1 => {
            let mut b = fb_bytes(&d);
            corrupt(g, &mut b);
            if let Ok(f) = flatbuffers::root_with_opts::<fbd::DType>(&opts(), &b) {
                if let Ok(x) = DType::try_from(f) {
                    g.label("accepted");
                    consistent(&x)?;
                }
                let k = g.usize(3);
                let fields: Vec<Field> = (0..k).map(|_| gen_field(g, 3)).collect();
                if let Ok(x) = vortex_dtype::flatbuffers::deserialize_and_project(f, &fields) {
                    consistent(&x)?;
                }
            }
        }
        2 => {
            // names and types that do not match, missing parts, unsupported kinds
            let n = g.usize(4);
            let m = g.usize(4);
            use pbd::d_type::DtypeType as K;
            let kid = pbd::DType { dtype_type: Some(K::Null(pbd::Null {})) };
            let kind = match g.usize(5) {
                0 => None,
                1 => Some(K::Decimal(pbd::Decimal { precision: 10, scale: 2, nullable: g.bool() })),
                2 => Some(K::List(Box::new(pbd::List { element_type: None, nullable: g.bool() }))),
                3 => Some(K::Primitive(pbd::Primitive { r#type: g.usize(12) as i32 + 11, nullable: g.bool() })),
                _ => Some(K::Struct(pbd::Struct {
                    names: (0..n).map(|i| format!("{i}")).collect(),
                    dtypes: vec![kid; m],
                    nullable: false,
                })),
            };
            let bad = !matches!(kind, Some(K::Struct(_)) | Some(K::Primitive(_))) || n != m;
            let p = pbd::DType { dtype_type: kind.clone() };
            let p = if g.bool() {
                pbd::DType { dtype_type: Some(K::List(Box::new(pbd::List { element_type: Some(Box::new(p)), nullable: false }))) }
            } else {
                p
            };
            match DType::try_from(&p) {
                Ok(x) => {
                    consistent(&x)?;
                    if bad && !matches!(kind, Some(K::Primitive(_))) {
                        return Err(format!("malformed dtype | accepted {p:?} as {x:?}"));
                    }
                }
                Err(_) => {
                    if !bad && matches!(kind, Some(K::Struct(_))) {
                        return Err(format!("malformed dtype | rejected {p:?}"));
                    }
                }
            }
        }
        _ => {
            // flatbuffer structs with names and types of different lengths
            let mut b = flatbuffers::FlatBufferBuilder::new();
            let n = g.usize(4);
            let m = g.usize(4);
            let names: Vec<_> = (0..n).map(|i| b.create_string(&format!("{i}"))).collect();
            let names = b.create_vector(&names);
            let kids: Vec<_> = (0..m).map(|_| DType::Null.write_flatbuffer(&mut b)).collect();
            let kids = b.create_vector(&kids);
            let (no_names, no_types) = (g.chance(1, 6), g.chance(1, 6));
            let s = fbd::Struct_::create(
                &mut b,
                &fbd::Struct_Args {
                    names: if no_names { None } else { Some(names) },
                    dtypes: if no_types { None } else { Some(kids) },
                    nullable: false,
                },
            );
            let t = fbd::DType::create(&mut b, &fbd::DTypeArgs { type_type: fbd::Type::Struct_, type_: Some(s.as_union_value()) });
            b.finish_minimal(t);
            let f = flatbuffers::root::<fbd::DType>(b.finished_data()).map_err(|e| format!("harness {e}"))?;
            match DType::try_from(f) {
                Ok(x) => {
                    consistent(&x)?;
                    if n != m || no_names || no_types {
                        return Err(format!("malformed dtype | accepted a struct of {n} names and {m} types as {x:?}"));
                    }
                }
                Err(_) if n == m && !no_names && !no_types => return Err("malformed dtype | rejected".into()),
                Err(_) => {}
            }
            let fields: Vec<Field> = (0..g.usize(3)).map(|_| Field::Index(g.usize(5))).collect();
            if let Ok(x) = vortex_dtype::flatbuffers::deserialize_and_project(f, &fields) {
                consistent(&x)?;
            }
        }
    }
    Ok(())
}

fn corrupt(g: &mut G, b: &mut Vec<u8>) {
    for _ in 0..g.range(1, 3) {
        if b.is_empty() {
            return;
        }
        let i = g.usize(b.len());
        match g.usize(4) {
            0 => b.truncate(i),
            1 => b[i] ^= 1 << g.usize(8),
            2 => b[i] = g.below(256) as u8,
            _ => b.insert(i, g.below(256) as u8),
        }
    }
}

fn consistent(d: &DType) -> Res {
    let _ = format!("{d} {d:?}");
    match d {
        DType::Struct(s, _) => {
            if s.names().len() != s.dtypes().len() {
                return Err(format!("malformed dtype | a struct with {} names and {} types", s.names().len(), s.dtypes().len()));
            }
            s.dtypes().iter().try_for_each(consistent)
        }
        DType::List(e, _) => consistent(e),
        _ => Ok(()),
    }
}

fn p_schema(g: &mut G) -> Res {
    let k = g.usize(7);
    let names: Vec<String> = (0..k).map(|_| name(g)).collect();
    let types: Vec<DType> = (0..k).map(|_| gen_dtype(g, 2)).collect();
    let st = StructDType::new(names.iter().map(|n| n.as_str().into()).collect::<Vec<_>>().into(), types.clone());
    let nn = nul(g.bool());
    let dt = DType::Struct(st.clone(), nn);
    g.nontrivial = k >= 2;
    g.note(|| format!("{dt}"));
    let at = |f: &Field| match f {
        Field::Name(n) => names.iter().position(|x| x == n),
        Field::Index(i) => (*i < k).then_some(*i),
    };
    let n = g.usize(5);
    let mut fields: Vec<Field> = vec![];
    for _ in 0..n {
        let f = match g.usize(8) {
            0 => gen_field(g, k),
            x if k > 0 && x % 2 == 0 => Field::Name(g.pick(&names).clone()),
            _ if k > 0 => Field::Index(g.usize(k)),
            _ => gen_field(g, k),
        };
        fields.push(f);
    }
    if g.chance(1, 10) {
        fields.push(Field::Index(k));
    }
    g.note(|| format!("fields {fields:?}"));
    let schema = Schema::new(dt.clone());
    if schema.dtype() != &dt || DType::from(schema.clone()) != dt {
        return Err("schema | its type changed".into());
    }
    for f in &fields {
        let exp = at(f);
        match (st.field_info(f), exp) {
            (Ok(i), Some(e)) => {
                if i.index != e || &*i.name != names[e].as_str() || i.dtype != &types[e] {
                    return Err(format!("field_info | {f} of {dt} is {} {}", i.index, i.dtype));
                }
            }
            (Err(_), None) => {}
            (r, e) => return Err(format!("field_info | {f} of {k} fields: found {} expected {e:?}", r.is_ok())),
        }
        match (schema.field_type(f), exp) {
            (Ok(t), Some(e)) if t == types[e] => {}
            (Err(_), None) => {}
            (r, e) => return Err(format!("field_type | {f} of {dt}: {:?} expected {e:?}", r.ok())),
        }
        if let Field::Name(n) = f {
            if st.find_name(n) != exp {
                return Err(format!("find_name | {n:?}: {:?} expected {exp:?}", st.find_name(n)));
            }
        }
    }
    let exp: Option<Vec<usize>> = fields.iter().map(at).collect();
    let want = exp.as_ref().map(|ix| {
        StructDType::new(
            ix.iter().map(|i| names[*i].as_str().into()).collect::<Vec<_>>().into(),
            ix.iter().map(|i| types[*i].clone()).collect(),
        )
    });
    let got = st.project(&fields).ok();
    if got != want {
        return Err(format!("project | {fields:?} of {dt} gives {got:?}"));
    }
    let wantd = want.map(|s| DType::Struct(s, nn));
    let got = schema.project(Projection::Flat(fields.clone())).ok().map(|s| s.dtype().clone());
    if got != wantd {
        return Err(format!("schema project | {fields:?} of {dt} gives {got:?}"));
    }
    let got = schema.project(Projection::All).ok().map(|s| s.dtype().clone());
    if got != Some(dt.clone()) {
        return Err(format!("schema project | everything of {dt} gives {got:?}"));
    }
    if let Some(ix) = &exp {
        let got = schema.project(Projection::new(ix)).ok().map(|s| s.dtype().clone());
        if got != wantd {
            return Err(format!("schema project | {ix:?} of {dt} gives {got:?}"));
        }
    }
    // the same projection of the serialized schema
    let bytes = fb_bytes(&dt);
    let f = flatbuffers::root_with_opts::<fbd::DType>(&opts(), &bytes).map_err(|e| format!("{e}"))?;
    let got = vortex_dtype::flatbuffers::deserialize_and_project(f, &fields).ok();
    if got != wantd {
        return Err(format!("deserialize_and_project | {fields:?} of {dt} gives {got:?}"));
    }
    for x in &fields {
        let got = f.type__as_struct_().and_then(|s| vortex_dtype::flatbuffers::resolve_field(s, x).ok());
        if got != at(x) {
            return Err(format!("resolve_field | {x} of {dt}: {got:?}"));
        }
    }
    // schemas that are not structs
    let other = gen_dtype(g, 0);
    if !other.is_struct() {
        let s = Schema::new(other.clone());
        let bad = s.project(Projection::Flat(fields.clone())).is_ok() || s.field_type(&Field::Index(0)).is_ok();
        if bad {
            return Err(format!("schema project | fields of {other}"));
        }
    }
    Ok(())
}

fn p_nullability(g: &mut G) -> Res {
    let d = gen_dtype(g, 0);
    let o = if g.bool() {
        let x = gen_dtype(g, 0);
        x.with_nullability(nul(g.bool()))
    } else {
        d.with_nullability(nul(g.bool()))
    };
    g.nontrivial = !matches!(d, DType::Null);
    g.note(|| format!("{d} {o}"));
    let model_nullable = matches!(
        &d,
        DType::Null
            | DType::Bool(Nullability::Nullable)
            | DType::Primitive(_, Nullability::Nullable)
            | DType::Utf8(Nullability::Nullable)
            | DType::Binary(Nullability::Nullable)
            | DType::Struct(_, Nullability::Nullable)
            | DType::List(_, Nullability::Nullable)
            | DType::Extension(_, Nullability::Nullable)
    );
    if d.is_nullable() != model_nullable || (d.nullability() == Nullability::Nullable) != model_nullable {
        return Err(format!("nullability | of {d:?}"));
    }
    fn strip(d: &DType) -> String {
        let mut x = format!("{d:?}");
        for k in [", NonNullable)", ", Nullable)", "(NonNullable)", "(Nullable)"] {
            if x.ends_with(k) {
                x.truncate(x.len() - k.len());
                break;
            }
        }
        x
    }
    for n in [Nullability::Nullable, Nullability::NonNullable] {
        let x = d.with_nullability(n);
        let direct = if n == Nullability::Nullable { d.as_nullable() } else { d.as_nonnullable() };
        if x != direct || strip(&x) != strip(&d) {
            return Err(format!("nullability | {d:?} with {n:?} is {x:?}"));
        }
        if !matches!(d, DType::Null) && x.nullability() != n {
            return Err(format!("nullability | {d:?} with {n:?} is {x:?}"));
        }
        if x.with_nullability(d.nullability()) != d {
            return Err(format!("nullability | {d:?} there and back is {x:?}"));
        }
    }
    let eq = strip(&d) == strip(&o);
    if d.eq_ignore_nullability(&o) != eq || o.eq_ignore_nullability(&d) != eq {
        return Err(format!("eq_ignore_nullability | {d:?} and {o:?}: expected {eq}"));
    }
    if (d == o) != (format!("{d:?}") == format!("{o:?}")) {
        return Err(format!("dtype equality | {d:?} and {o:?}"));
    }
    let p = match &d {
        DType::Primitive(p, _) => Some(*p),
        _ => None,
    };
    let pt = PType::try_from(&d).ok();
    if pt != p
        || d.is_int() != p.is_some_and(|p| matches!(p, PType::U8 | PType::U16 | PType::U32 | PType::U64) || matches!(p, PType::I8 | PType::I16 | PType::I32 | PType::I64))
        || d.is_unsigned_int() != p.is_some_and(|p| matches!(p, PType::U8 | PType::U16 | PType::U32 | PType::U64))
        || d.is_signed_int() != p.is_some_and(|p| matches!(p, PType::I8 | PType::I16 | PType::I32 | PType::I64))
        || d.is_float() != p.is_some_and(|p| matches!(p, PType::F16 | PType::F32 | PType::F64))
        || d.is_boolean() != matches!(d, DType::Bool(_))
        || d.is_struct() != matches!(d, DType::Struct(..))
        || d.as_struct().is_some() != d.is_struct()
    {
        return Err(format!("dtype classification | {d:?}"));
    }
    Ok(())
}

fn p_ptype(g: &mut G) -> Res {
    let p = *g.pick(&PTYPES);
    let name = format!("{p}");
    let bits: usize = name[1..].parse().map_err(|e| format!("ptype | {p}: {e}"))?;
    if p.bit_width() != bits || p.byte_width() * 8 != bits {
        return Err(format!("ptype width | {p}"));
    }
    if p.to_signed().to_unsigned() != p.to_unsigned() || p.to_unsigned().to_signed() != p.to_signed() || p.to_signed().bit_width() != bits {
        return Err(format!("ptype sign | {p}"));
    }
    if p.is_int() {
        if p.max_value() as i128 != int_range(p).1 {
            return Err(format!("ptype max | {p}"));
        }
        if !p.to_signed().is_signed_int() || !p.to_unsigned().is_unsigned_int() {
            return Err(format!("ptype sign | {p}"));
        }
    }
    if DType::from(p) != DType::Primitive(p, Nullability::NonNullable) || <&DType>::from(p) != &DType::from(p) {
        return Err(format!("ptype dtype | {p}"));
    }
    if PType::from(pbd::PType::from(p)) != p || PType::try_from(fbd::PType::from(p)).map_err(e2s)? != p {
        return Err(format!("ptype serde | {p}"));
    }
    // bytes
    let v = gen_nn(g, &Ty::Prim(p, false), 2);
    g.nontrivial = v[0] != v[1];
    g.note(|| format!("{p} {v:?}"));
    fn t<T: NativePType + Copy>(a: T, b: T, le: Vec<u8>, va: &V, vb: &V) -> Res {
        if a.to_le_bytes() != le.as_slice() {
            return Err(format!("le bytes | {va:?}"));
        }
        match T::try_from_le_bytes(&le) {
            Ok(x) if x.is_eq(a) => {}
            _ => return Err(format!("le bytes | {va:?} does not read back")),
        }
        if T::try_from_le_bytes(&le[1..]).is_ok() {
            return Err("le bytes | too short accepted".into());
        }
        let mut l = le.clone();
        l.push(0);
        if T::try_from_le_bytes(&l).is_ok() {
            return Err("le bytes | too long accepted".into());
        }
        if a.compare(b) != va.tcmp(vb) || a.is_eq(b) != (va == vb) || a.is_nan() != va.is_nan() || b.compare(a) != vb.tcmp(va) {
            return Err(format!("native compare | {va:?} {vb:?}"));
        }
        Ok(())
    }
    macro_rules! ints {
        ($($P:ident $T:ty),*) => { match p { $(PType::$P => { let (a, b) = (v[0].int() as $T, v[1].int() as $T); t(a, b, a.to_le_bytes().to_vec(), &v[0], &v[1]) })*
            PType::F16 => { let f = |v: &V| match v { V::F16(x) => half::f16::from_bits(*x), _ => panic!("harness") }; t(f(&v[0]), f(&v[1]), f(&v[0]).to_le_bytes().to_vec(), &v[0], &v[1]) }
            PType::F32 => { let f = |v: &V| match v { V::F32(x) => f32::from_bits(*x), _ => panic!("harness") }; t(f(&v[0]), f(&v[1]), f(&v[0]).to_le_bytes().to_vec(), &v[0], &v[1]) }
            PType::F64 => { let f = |v: &V| match v { V::F64(x) => f64::from_bits(*x), _ => panic!("harness") }; t(f(&v[0]), f(&v[1]), f(&v[0]).to_le_bytes().to_vec(), &v[0], &v[1]) }
        } };
    }
    ints!(U8 u8, U16 u16, U32 u32, U64 u64, I8 i8, I16 i16, I32 i32, I64 i64)
}

/// days since 1970-01-01 to a calendar date
pub fn civil(days: i64) -> (i64, u32, u32) {
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}

fn p_temporal(g: &mut G) -> Res {
    let unit = *g.pick(&[TimeUnit::Ns, TimeUnit::Us, TimeUnit::Ms, TimeUnit::S, TimeUnit::D]);
    let tz = match g.usize(6) {
        0 | 1 | 2 => None,
        3 => Some("UTC".to_string()),
        4 => Some("America/New_York".to_string()),
        _ => Some(name(g)).filter(|s| !s.is_empty()),
    };
    let (id, m) = match g.usize(3) {
        0 => (TIME_ID.clone(), TemporalMetadata::Time(unit)),
        1 => (DATE_ID.clone(), TemporalMetadata::Date(unit)),
        _ => (TIMESTAMP_ID.clone(), TemporalMetadata::Timestamp(unit, tz.clone())),
    };
    let per: i128 = match unit {
        TimeUnit::Ns => 1,
        TimeUnit::Us => 1_000,
        TimeUnit::Ms => 1_000_000,
        TimeUnit::S => 1_000_000_000,
        TimeUnit::D => 86_400_000_000_000,
    };
    let day = 86_400_000_000_000i128;
    let v = match g.usize(4) {
        0 => gen_ints(g, PType::I64, 1)[0],
        1 => g.below(200_000) as i128 - 100_000,
        2 => g.below(day as u64) as i128 / per * if g.chance(1, 8) { -1 } else { 1 },
        _ => ((g.below(20_000_000) as i128 - 10_000_000) * day / 2 / per).clamp(i64::MIN as i128, i64::MAX as i128),
    } as i64;
    g.nontrivial = v != 0;
    g.note(|| format!("{m:?} {v}"));
    if m.time_unit() != unit {
        return Err(format!("temporal | time unit of {m:?}"));
    }
    if m.time_zone() != if id == *TIMESTAMP_ID { tz.as_deref() } else { None } {
        return Err(format!("temporal | time zone of {m:?}"));
    }
    let e = ExtDType::new(id.clone(), Some(m.clone().into()));
    match TemporalMetadata::try_from(&e) {
        Ok(x) if x == m => {}
        r => return Err(format!("temporal metadata | {m:?} became {:?}", r.map_err(e2s))),
    }
    // Arrow
    let arrow_ok = match &m {
        TemporalMetadata::Date(u) => matches!(u, TimeUnit::D | TimeUnit::Ms),
        _ => unit != TimeUnit::D,
    };
    if arrow_ok {
        let a = vortex_datetime_dtype::arrow::make_arrow_temporal_dtype(&e);
        let back = vortex_datetime_dtype::arrow::make_temporal_ext_dtype(&a);
        if back != e {
            return Err(format!("temporal arrow | {m:?} as {a} became {back:?}"));
        }
    }
    // calendar values
    let ns = v as i128 * per;
    let (lo, hi) = (jiff::Timestamp::MIN.as_nanosecond(), jiff::Timestamp::MAX.as_nanosecond());
    match (&m, m.to_jiff(v)) {
        (TemporalMetadata::Time(TimeUnit::D), r) | (TemporalMetadata::Timestamp(TimeUnit::D, _), r) => {
            if r.is_ok() {
                return Err(format!("to_jiff | {m:?} accepted"));
            }
        }
        (TemporalMetadata::Time(_), Ok(TemporalJiff::Time(t))) => {
            let got = ((t.hour() as i128 * 60 + t.minute() as i128) * 60 + t.second() as i128) * 1_000_000_000 + t.subsec_nanosecond() as i128;
            if got != ns {
                return Err(format!("to_jiff | {v} of {m:?} is {t}"));
            }
        }
        (TemporalMetadata::Time(_), Err(_)) => {
            if (0..day).contains(&ns) {
                return Err(format!("to_jiff | {v} of {m:?} rejected"));
            }
        }
        (TemporalMetadata::Date(u), r) if !matches!(u, TimeUnit::D | TimeUnit::Ms) => {
            if r.is_ok() {
                return Err(format!("to_jiff | {m:?} accepted"));
            }
        }
        (TemporalMetadata::Date(_), r) => {
            let days = ns.div_euclid(day);
            let (y, mo, d) = civil(days.clamp(-10_000_000, 10_000_000) as i64);
            let inside = (-9999..=9999).contains(&y) && days.abs() < 5_000_000;
            match r {
                Ok(TemporalJiff::Date(x)) => {
                    if ns.rem_euclid(day) == 0 && (!inside || (x.year() as i64, x.month() as u32, x.day() as u32) != (y, mo, d)) {
                        return Err(format!("to_jiff | {v} of {m:?} is {x} expected {y}-{mo}-{d}"));
                    }
                }
                Ok(x) => return Err(format!("to_jiff | {v} of {m:?} is {x}")),
                Err(_) if inside && ns.rem_euclid(day) == 0 => return Err(format!("to_jiff | {v} of {m:?} rejected")),
                Err(_) => {}
            }
        }
        (TemporalMetadata::Timestamp(_, None), Ok(TemporalJiff::Timestamp(t))) => {
            if t.as_nanosecond() != ns {
                return Err(format!("to_jiff | {v} of {m:?} is {t}"));
            }
        }
        (TemporalMetadata::Timestamp(_, Some(_)), Ok(TemporalJiff::Zoned(t))) => {
            if t.timestamp().as_nanosecond() != ns {
                return Err(format!("to_jiff | {v} of {m:?} is {t}"));
            }
        }
        (TemporalMetadata::Timestamp(_, z), Err(e)) => {
            let known = match z.as_deref() {
                None | Some("UTC") | Some("America/New_York") => true,
                Some(_) => false,
            };
            let margin = 2 * day;
            if known && v != i64::MIN && lo + margin < ns && ns < hi - margin {
                return Err(format!("to_jiff | {v} of {m:?} rejected: {}", e2s(e)));
            }
        }
        (_, Ok(x)) => return Err(format!("to_jiff | {v} of {m:?} is {x}")),
    }
    // malformed metadata
    let mut bytes = ExtMetadata::from(m.clone()).as_ref().to_vec();
    corrupt(g, &mut bytes);
    let md = if g.chance(1, 10) { None } else { Some(ExtMetadata::new(bytes.into())) };
    let bad = ExtDType::new(id, md);
    if let Ok(x) = TemporalMetadata::try_from(&bad) {
        g.label("malformed accepted");
        let _ = format!("{x:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- scalars

/// scalar values of a type; extension types hold values of `ext_storage`
fn ext_storage(e: &ExtDType, n: Nullability) -> DType {
    if let Ok(m) = TemporalMetadata::try_from(e) {
        let wide = match m {
            TemporalMetadata::Time(u) => matches!(u, TimeUnit::Us | TimeUnit::Ns),
            TemporalMetadata::Date(u) => u == TimeUnit::Ms,
            TemporalMetadata::Timestamp(..) => true,
        };
        return DType::Primitive(if wide { PType::I64 } else { PType::I32 }, n);
    }
    match e.id().as_ref().len() % 5 {
        0 => DType::Utf8(n),
        1 => DType::Bool(n),
        2 => DType::Binary(n),
        3 => DType::Primitive(PType::I32, n),
        _ => DType::Primitive(PType::U8, n),
    }
}

fn gen_sv(g: &mut G, d: &DType) -> ScalarValue {
    if d.is_nullable() && g.chance(1, 5) {
        return ScalarValue::Null;
    }
    let t = |g: &mut G, t: Ty| {
        let v = gen_nn(g, &t, 1);
        v_to_sv(&v[0], &t)
    };
    match d {
        DType::Null => ScalarValue::Null,
        DType::Bool(_) => t(g, Ty::Bool(false)),
        DType::Primitive(p, _) => t(g, Ty::Prim(*p, false)),
        DType::Utf8(_) => {
            if g.chance(1, 3) {
                let s: String = (0..g.usize(14)).map(|_| *g.pick(&['a', 'é', '日', '🎉', '\0'])).collect();
                ScalarValue::BufferString(s.into())
            } else {
                t(g, Ty::Utf8(false))
            }
        }
        DType::Binary(_) => t(g, Ty::Bin(false)),
        DType::Struct(s, _) => ScalarValue::List(s.dtypes().iter().map(|x| gen_sv(g, x)).collect::<Vec<_>>().into()),
        DType::List(e, _) => ScalarValue::List((0..g.usize(4)).map(|_| gen_sv(g, e)).collect::<Vec<_>>().into()),
        DType::Extension(e, n) => {
            let s = ext_storage(e, *n);
            gen_sv(g, &s)
        }
    }
}

fn gen_scalar(g: &mut G) -> Scalar {
    let d = gen_dtype(g, 1);
    let v = gen_sv(g, &d);
    Scalar::new(d, v)
}

fn int_of(p: &PValue) -> Option<i128> {
    Some(match p {
        PValue::U8(x) => *x as i128,
        PValue::U16(x) => *x as i128,
        PValue::U32(x) => *x as i128,
        PValue::U64(x) => *x as i128,
        PValue::I8(x) => *x as i128,
        PValue::I16(x) => *x as i128,
        PValue::I32(x) => *x as i128,
        PValue::I64(x) => *x as i128,
        _ => return None,
    })
}

/// order of two values of one type, nulls last, floats by the IEEE total order
fn sv_cmp(a: &ScalarValue, b: &ScalarValue, any_width: bool) -> Option<Ordering> {
    Some(match (a, b) {
        (ScalarValue::Null, ScalarValue::Null) => Ordering::Equal,
        (ScalarValue::Null, _) => Ordering::Greater,
        (_, ScalarValue::Null) => Ordering::Less,
        (ScalarValue::Bool(a), ScalarValue::Bool(b)) => a.cmp(b),
        (ScalarValue::Primitive(a), ScalarValue::Primitive(b)) => {
            if any_width {
                if let (Some(x), Some(y)) = (int_of(a), int_of(b)) {
                    return Some(x.cmp(&y));
                }
            }
            match (a, b) {
                (PValue::F16(a), PValue::F16(b)) => a.total_cmp(b),
                (PValue::F32(a), PValue::F32(b)) => a.total_cmp(b),
                (PValue::F64(a), PValue::F64(b)) => a.total_cmp(b),
                _ if std::mem::discriminant(a) == std::mem::discriminant(b) => int_of(a)?.cmp(&int_of(b)?),
                _ => return None,
            }
        }
        (ScalarValue::Buffer(a), ScalarValue::Buffer(b)) => a.as_slice().cmp(b.as_slice()),
        (ScalarValue::BufferString(a), ScalarValue::BufferString(b)) => a.as_str().as_bytes().cmp(b.as_str().as_bytes()),
        (ScalarValue::List(a), ScalarValue::List(b)) => {
            for (x, y) in a.iter().zip(b.iter()) {
                let c = sv_cmp(x, y, any_width)?;
                if c != Ordering::Equal {
                    return Some(c);
                }
            }
            a.len().cmp(&b.len())
        }
        _ => return None,
    })
}

fn has(d: &DType, f: &dyn Fn(&DType) -> bool) -> bool {
    f(d) || match d {
        DType::Struct(s, _) => s.dtypes().iter().any(|x| has(x, f)),
        DType::List(e, _) => has(e, f),
        DType::Extension(e, n) => f(&ext_storage(e, *n)),
        _ => false,
    }
}

fn sv_any(v: &ScalarValue, f: &dyn Fn(&ScalarValue) -> bool) -> bool {
    f(v) || matches!(v, ScalarValue::List(l) if l.iter().any(|x| sv_any(x, f)))
}

fn same_scalar(a: &Scalar, b: &Scalar, what: &str) -> Res {
    if a.dtype() != b.dtype() {
        return Err(format!("scalar dtype | {what}: {} became {}", a.dtype(), b.dtype()));
    }
    let ext = has(a.dtype(), &|d| matches!(d, DType::Extension(..)));
    if sv_cmp(a.value(), b.value(), ext) != Some(Ordering::Equal) {
        return Err(format!("scalar value | {what}: {:?} became {:?} for {}", a.value(), b.value(), a.dtype()));
    }
    Ok(())
}

fn p_scalar_serde(g: &mut G) -> Res {
    let s = gen_scalar(g);
    g.nontrivial = s.is_valid();
    g.note(|| format!("{s:?}"));
    let d = s.dtype().clone();
    let bytes = pbs::Scalar::from(&s).encode_to_vec();
    let m = pbs::Scalar::decode(bytes.as_slice()).map_err(|e| format!("scalar proto | {e}"))?;
    same_scalar(&s, &Scalar::try_from(&m).map_err(|e| format!("scalar proto | {}", e2s(e)))?, "proto")?;
    let bytes = fb_bytes(&s);
    let f = flatbuffers::root_with_opts::<fbs::Scalar>(&opts(), &bytes).map_err(|e| format!("scalar flatbuffer | {e}"))?;
    let back = Scalar::try_from(f).map_err(|e| format!("scalar flatbuffer | {}", e2s(e)))?;
    same_scalar(&s, &back, "flatbuffer")?;
    let v = ScalarValue::try_from(f.value()).map_err(|e| format!("scalar value flatbuffer | {}", e2s(e)))?;
    same_scalar(&s, &Scalar::new(d.clone(), v), "flatbuffer value")?;
    let b = flexbuffers::to_vec(&s).map_err(|e| format!("scalar flexbuffers | {e}"))?;
    let back2: Scalar = flexbuffers::from_slice(&b).map_err(|e| format!("scalar flexbuffers | {e}"))?;
    same_scalar(&s, &back2, "flexbuffers")?;
    let no_json = sv_any(s.value(), &|v| match v {
        ScalarValue::Buffer(_) => true,
        ScalarValue::Primitive(PValue::F32(x)) => !x.is_finite(),
        // serde_json reads some doubles back with another last digit
        ScalarValue::Primitive(PValue::F64(x)) => serde_json::to_string(x).ok().and_then(|s| serde_json::from_str::<f64>(&s).ok()) != Some(*x),
        _ => false,
    });
    if no_json {
        // JSON has neither bytes nor infinities
        g.label("no json");
    } else {
        let j = serde_json::to_string(&s).map_err(|e| format!("scalar json | {e}"))?;
        let back: Scalar = serde_json::from_str(&j).map_err(|e| format!("scalar json | {e}: {j}"))?;
        same_scalar(&s, &back, "json")?;
    }
    // what was read compares like what was written
    for (b, what) in [(&back, "flatbuffer"), (&back2, "flexbuffers")] {
        let ext = has(&d, &|d| matches!(d, DType::Extension(..)));
        if !ext && (b != &s || b.partial_cmp(&s) != Some(Ordering::Equal)) {
            return Err(format!("scalar equality | {what}: {s:?} and {b:?}"));
        }
        // values of extension types do not know their width
        let text = match &d {
            DType::Extension(e, _) => TemporalMetadata::try_from(e).ok().is_some_and(|m| {
                s.value().as_pvalue().ok().flatten().and_then(|p| int_of(&p)).and_then(|v| m.to_jiff(v as i64).ok()).is_some()
            }),
            _ => !ext,
        };
        if guard(|| b.to_string())? != s.to_string() && text {
            return Err(format!("scalar display | {what}: {s} and {b}"));
        }
    }
    // and converts like it
    if let Ok(Ok(a)) = guard(|| datafusion_common::ScalarValue::try_from(s.clone())) {
        let b = datafusion_common::ScalarValue::try_from(back.clone()).map_err(|e| format!("scalar to datafusion | {}", e2s(e)))?;
        if !df_eq(&a, &b) {
            return Err(format!("scalar to datafusion | {a:?} became {b:?} after a round trip"));
        }
    }
    Ok(())
}

fn df_eq(a: &datafusion_common::ScalarValue, b: &datafusion_common::ScalarValue) -> bool {
    use datafusion_common::ScalarValue as D;
    match (a, b) {
        (D::Float32(Some(a)), D::Float32(Some(b))) => a.to_bits() == b.to_bits(),
        (D::Float64(Some(a)), D::Float64(Some(b))) => a.to_bits() == b.to_bits(),
        (D::Float16(Some(a)), D::Float16(Some(b))) => a.to_bits() == b.to_bits(),
        _ => a == b,
    }
}

/// protobuf messages that make no sense as scalars are rejected or read as something printable
fn p_scalar_bad(g: &mut G) -> Res {
    let s = gen_scalar(g);
    g.nontrivial = s.is_valid();
    g.note(|| format!("{s:?}"));
    // (the flexbuffers reader that flatbuffer scalars go through is not hardened: it is a dependency)
    let mut b = pbs::Scalar::from(&s).encode_to_vec();
    corrupt(g, &mut b);
    if let Ok(m) = pbs::Scalar::decode(b.as_slice()) {
        if let Ok(x) = Scalar::try_from(&m) {
            g.label("accepted");
            let _ = format!("{:?}", x);
        }
    }
    Ok(())
}

fn p_scalar_order(g: &mut G) -> Res {
    let d = gen_dtype(g, 1);
    let vals: Vec<ScalarValue> = (0..3)
        .map(|_| {
            if let (DType::Primitive(p, n), true) = (&d, g.bool()) {
                // zeros, infinities, NaNs
                if p.is_float() {
                    let x = *g.pick(&[0.0f64, -0.0, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.0, -1.0]);
                    let v = match p {
                        PType::F16 => PValue::F16(half::f16::from_f64(x)),
                        PType::F32 => PValue::F32(x as f32),
                        _ => PValue::F64(x),
                    };
                    let _ = n;
                    return ScalarValue::Primitive(v);
                }
            }
            gen_sv(g, &d)
        })
        .collect();
    let ds: Vec<DType> = (0..3)
        .map(|i| if vals[i].is_null() || g.bool() { d.clone() } else { d.with_nullability(nul(g.bool())) })
        .collect();
    let s: Vec<Scalar> = (0..3).map(|i| Scalar::new(ds[i].clone(), vals[i].clone())).collect();
    g.nontrivial = s.iter().all(|x| x.is_valid());
    g.note(|| format!("{s:?}"));
    for i in 0..3 {
        for j in 0..3 {
            let m = sv_cmp(&vals[i], &vals[j], false);
            let got = s[i].partial_cmp(&s[j]);
            if m.is_none() || got != m {
                return Err(format!("scalar order | {:?} and {:?}: {got:?} expected {m:?}", s[i], s[j]));
            }
            let eq = m == Some(Ordering::Equal) && ds[i] == ds[j];
            if (s[i] == s[j]) != eq {
                return Err(format!("scalar equality | {:?} and {:?}: expected {eq}", s[i], s[j]));
            }
        }
    }
    let other = gen_scalar(g);
    if !other.dtype().eq_ignore_nullability(&d) && (s[0] == other || s[0].partial_cmp(&other).is_some()) {
        return Err(format!("scalar order | {:?} and {other:?} of another type", s[0]));
    }
    Ok(())
}

fn p_scalar_cast(g: &mut G) -> Res {
    let s = gen_scalar(g);
    let t = match g.usize(6) {
        0 | 1 => s.dtype().with_nullability(nul(g.bool())),
        2 => gen_dtype(g, 1),
        _ => DType::Primitive(*g.pick(&PTYPES), nul(g.bool())),
    };
    g.note(|| format!("{s:?} to {t}"));
    g.nontrivial = s.is_valid() && !s.dtype().eq_ignore_nullability(&t);
    let r = guard(|| s.cast(&t)).map_err(|e| format!("scalar cast panicked | {e}"))?;
    if s.is_null() && !t.is_nullable() {
        return match r {
            Err(_) => Ok(()),
            Ok(x) => Err(format!("scalar cast | null to {t} is {x:?}")),
        };
    }
    if let Ok(x) = &r {
        if x.dtype() != &t {
            return Err(format!("scalar cast | to {t} is of type {}", x.dtype()));
        }
        if s.is_null() != x.is_null() {
            return Err(format!("scalar cast | {s:?} to {t} is {x:?}"));
        }
    }
    if s.dtype().eq_ignore_nullability(&t) {
        return match r {
            Ok(x) if sv_cmp(x.value(), s.value(), false) == Some(Ordering::Equal) => Ok(()),
            r => Err(format!("scalar cast | {s:?} to {t} is {:?}", r.map_err(e2s))),
        };
    }
    if s.is_null() {
        return match r {
            Ok(x) if x.is_null() => Ok(()),
            Ok(x) => Err(format!("scalar cast | null to {t} is {x:?}")),
            Err(e) => Err(format!("scalar cast of null | {} to {t} fails: {}", s.dtype(), e2s(e))),
        };
    }
    if let (DType::Primitive(p, _), DType::Primitive(q, _)) = (s.dtype(), &t) {
        let v = scalar_to_v(&s, &Ty::Prim(*p, true))?;
        let exp = cast_model(&v, *p, *q);
        return match (r, exp) {
            (Ok(x), Some(e)) => {
                let got = scalar_to_v(&x, &Ty::Prim(*q, true))?;
                if got != e && !(got.is_nan() && e.is_nan()) {
                    return Err(format!("scalar cast | {s:?} to {t} is {got:?} expected {e:?}"));
                }
                Ok(())
            }
            (Err(_), None) => Ok(()),
            (r, e) => Err(format!("scalar cast | {s:?} to {t} is {:?} expected {e:?}", r.map_err(e2s))),
        };
    }
    g.label("other types");
    Ok(())
}

fn p_scalar_display(g: &mut G) -> Res {
    let s = gen_scalar(g);
    g.nontrivial = s.is_valid();
    g.note(|| format!("{s:?}"));
    let out = guard(|| s.to_string()).map_err(|e| format!("display panicked | {} {e}", class(s.dtype())))?;
    let out2 = guard(|| s.value().to_string()).map_err(|e| format!("value display panicked | {e}"))?;
    if s.is_null() && (out != "null" || out2 != "null") {
        return Err(format!("display | null is {out} {out2}"));
    }
    match (s.dtype(), s.value()) {
        (DType::Utf8(_), ScalarValue::BufferString(x)) if out != x.as_str() => return Err(format!("display | {x:?} is {out}")),
        (DType::Bool(_), ScalarValue::Bool(x)) if out != x.to_string() => return Err(format!("display | {x:?} is {out}")),
        (DType::Primitive(p, _), ScalarValue::Primitive(x)) if out != x.to_string() || !out.ends_with(&p.to_string()) => {
            return Err(format!("display | {x:?} is {out}"))
        }
        _ => {}
    }
    Ok(())
}

fn class(d: &DType) -> &'static str {
    match d {
        DType::Null => "null",
        DType::Bool(_) => "bool",
        DType::Primitive(..) => "primitive",
        DType::Utf8(_) => "utf8",
        DType::Binary(_) => "binary",
        DType::Struct(..) => "struct",
        DType::List(..) => "list",
        DType::Extension(..) => "extension",
    }
}

/// Rust values to scalars and back
fn p_scalar_native(g: &mut G) -> Res {
    let p = *g.pick(&PTYPES);
    let q = *g.pick(&PTYPES);
    let v = gen_nn(g, &Ty::Prim(p, false), 1).remove(0);
    let nn = g.bool();
    g.nontrivial = p != q;
    g.note(|| format!("{p} {v:?} as {q}"));
    let ScalarValue::Primitive(pv) = v_to_sv(&v, &Ty::Prim(p, false)) else { unreachable!() };
    if pv.ptype() != p || PTYPES.iter().any(|t| pv.is_instance_of(t) != (*t == p)) {
        return Err(format!("pvalue type | {pv:?}"));
    }
    // reading a PValue as a native type is exact or fails; f16 may come back as its bits
    macro_rules! rd {
        ($($P:ident $T:ty, $as:ident, $v:expr);* $(;)?) => { match q { $(PType::$P => {
            let direct = pv.$as();
            if direct.is_some() != (p == q) { return Err(format!("pvalue access | {pv:?} as {q}")); }
            let r = <$T>::try_from(pv).ok().map(|x| { let f: fn($T) -> V = $v; f(x) });
            if let Some(x) = direct { let f: fn($T) -> V = $v; if f(x) != v { return Err(format!("pvalue access | {pv:?} is {:?}", f(x))); } }
            // the other way: native -> Scalar -> native
            if p == q {
                let x = <$T>::try_from(pv).map_err(e2s)?;
                let s = Scalar::from(x);
                let f: fn($T) -> V = $v;
                if s.dtype() != &DType::from(q) || f(<$T>::try_from(&s).map_err(e2s)?) != v || f(<$T>::try_from(s.clone()).map_err(e2s)?) != v {
                    return Err(format!("native scalar | {pv:?}"));
                }
                let s = Scalar::primitive(x, nul(nn));
                if s.dtype() != &DType::Primitive(q, nul(nn)) || f(<$T>::try_from(&s).map_err(e2s)?) != v {
                    return Err(format!("native scalar | {pv:?}"));
                }
                let o = Scalar::from(Some(x));
                if o.dtype() != &DType::Primitive(q, Nullability::Nullable) || f(<$T>::try_from(&o).map_err(e2s)?) != v {
                    return Err(format!("native scalar | Some({pv:?})"));
                }
                let o = Scalar::from(None::<$T>);
                if o.dtype() != &DType::Primitive(q, Nullability::Nullable) || !o.is_null() || <$T>::try_from(&o).is_ok() {
                    return Err(format!("native scalar | None of {q}"));
                }
                let z = Scalar::zero::<$T>(nul(nn));
                if f(<$T>::try_from(&z).map_err(e2s)?).f64() != 0.0 || z.dtype() != &DType::Primitive(q, nul(nn)) { return Err(format!("zero scalar | {q}")); }
                let ps = PrimitiveScalar::try_from(&s).map_err(e2s)?;
                if ps.ptype() != q || ps.typed_value::<$T>().map(f) != Some(v.clone()) { return Err(format!("typed value | {pv:?}")); }
            }
            r
        })* } };
    }
    let got = rd!(
        U8 u8, as_u8, |x| V::I(x as i128);
        U16 u16, as_u16, |x| V::I(x as i128);
        U32 u32, as_u32, |x| V::I(x as i128);
        U64 u64, as_u64, |x| V::I(x as i128);
        I8 i8, as_i8, |x| V::I(x as i128);
        I16 i16, as_i16, |x| V::I(x as i128);
        I32 i32, as_i32, |x| V::I(x as i128);
        I64 i64, as_i64, |x| V::I(x as i128);
        F16 half::f16, as_f16, |x| V::F16(x.to_bits());
        F32 f32, as_f32, |x| V::F32(x.to_bits());
        F64 f64, as_f64, |x| V::F64(x.to_bits());
    );
    let exp = if p == q {
        Some(v.clone())
    } else if p.is_int() && q.is_int() {
        cast_model(&v, p, q)
    } else if p.is_float() && q.is_float() {
        cast_model(&v, p, q)
    } else if q == PType::F16 && p.is_unsigned_int() {
        u16::try_from(v.int()).ok().map(V::F16)
    } else {
        None
    };
    let ok = match (&got, &exp) {
        (Some(a), Some(b)) => a == b || (a.is_nan() && b.is_nan()),
        (None, None) => true,
        _ => false,
    };
    if !ok {
        return Err(format!("pvalue conversion | {pv:?} as {q}: {got:?} expected {exp:?}"));
    }
    // usize
    let s = Scalar::new(DType::from(p), ScalarValue::Primitive(pv));
    match (usize::try_from(&s), p.is_int() && v.int() >= 0) {
        (Ok(x), true) if x as i128 == v.int() => {}
        (Err(_), false) => {}
        (r, _) => return Err(format!("usize | {pv:?} is {:?}", r.ok())),
    }
    // reinterpreting bits
    if p.bit_width() == q.bit_width() {
        let r = pv.reinterpret_cast(q);
        let back = r.reinterpret_cast(p);
        if r.ptype() != q || sv_cmp(&ScalarValue::Primitive(back), &ScalarValue::Primitive(pv), false) != Some(Ordering::Equal) || bits(&r) != bits(&pv) {
            return Err(format!("reinterpret | {pv:?} as {q} is {r:?}"));
        }
        let s = Scalar::new(DType::Primitive(p, nul(nn)), ScalarValue::Primitive(pv));
        let r = s.reinterpret_cast(q);
        if r.dtype() != &DType::Primitive(q, nul(nn)) || r.value().as_pvalue().ok().flatten().map(|x| bits(&x)) != Some(bits(&pv)) {
            return Err(format!("reinterpret | {s:?} as {q} is {r:?}"));
        }
        let r = Scalar::null(DType::Primitive(p, Nullability::Nullable)).reinterpret_cast(q);
        if !r.is_null() || r.dtype() != &DType::Primitive(q, Nullability::Nullable) {
            return Err(format!("reinterpret | null of {p} as {q} is {r:?}"));
        }
    } else if p.is_float() || q.is_float() {
    } else if guard(|| pv.reinterpret_cast(q)).is_ok() {
        return Err(format!("reinterpret | {p} as {q} accepted"));
    }
    Ok(())
}

fn bits(p: &PValue) -> u64 {
    match p {
        PValue::U8(x) => *x as u64,
        PValue::U16(x) => *x as u64,
        PValue::U32(x) => *x as u64,
        PValue::U64(x) => *x,
        PValue::I8(x) => *x as u8 as u64,
        PValue::I16(x) => *x as u16 as u64,
        PValue::I32(x) => *x as u32 as u64,
        PValue::I64(x) => *x as u64,
        PValue::F16(x) => x.to_bits() as u64,
        PValue::F32(x) => x.to_bits() as u64,
        PValue::F64(x) => x.to_bits(),
    }
}

/// strings, bytes, lists and structs
fn p_scalar_nested(g: &mut G) -> Res {
    match g.usize(5) {
        4 => {
            // a scalar is of one kind, and no other kind reads it
            use vortex_scalar::{BinaryScalar, BoolScalar, ExtScalar, Utf8Scalar};
            let d = gen_dtype(g, 2);
            let v = gen_sv(g, &d);
            let s = Scalar::new(d.clone(), v);
            g.note(|| format!("{s:?}"));
            g.nontrivial = true;
            let is = |f: &dyn Fn() -> bool, want: bool, what: &str| -> Res {
                match guard(f) {
                    Ok(x) if x == want => Ok(()),
                    Ok(_) => Err(format!("kind of a scalar | a {d} read as {what}: {}", !want)),
                    Err(p) => Err(format!("kind of a scalar | a {d} read as {what} panicked: {p}")),
                }
            };
            is(&|| BoolScalar::try_from(&s).is_ok(), matches!(d, DType::Bool(_)), "bool")?;
            is(&|| PrimitiveScalar::try_from(&s).is_ok(), matches!(d, DType::Primitive(..)), "primitive")?;
            is(&|| Utf8Scalar::try_from(&s).is_ok(), matches!(d, DType::Utf8(_)), "utf8")?;
            is(&|| BinaryScalar::try_from(&s).is_ok(), matches!(d, DType::Binary(_)), "binary")?;
            is(&|| StructScalar::try_from(&s).is_ok(), matches!(d, DType::Struct(..)), "struct")?;
            is(&|| ListScalar::try_from(&s).is_ok(), matches!(d, DType::List(..)), "list")?;
            is(&|| ExtScalar::try_from(&s).is_ok(), matches!(d, DType::Extension(..)), "extension")?;
            let there = !s.is_null();
            is(&|| bool::try_from(&s).is_ok(), there && matches!(d, DType::Bool(_)), "a bool")?;
            is(&|| String::try_from(&s).is_ok(), there && matches!(d, DType::Utf8(_)), "a string")?;
            is(&|| Buffer::try_from(&s).is_ok(), there && matches!(d, DType::Binary(_)), "bytes")?;
            is(&|| i16::try_from(&s).is_ok(), there && matches!(d, DType::Primitive(PType::I16, _)), "i16")?;
            is(&|| f32::try_from(&s).is_ok(), there && matches!(d, DType::Primitive(PType::F32, _)), "f32")?;
        }
        0 => {
            let v = gen_strings(g, 3, true);
            let st: Vec<String> = v.iter().map(|x| String::from_utf8(x.clone()).unwrap_or_default()).collect();
            g.nontrivial = !st[0].is_empty();
            g.note(|| format!("{st:?}"));
            let s = Scalar::from(st[0].as_str());
            let b = BufferString::try_from(&s).map_err(e2s)?;
            if s.dtype() != &DType::Utf8(Nullability::NonNullable) || b.as_str() != st[0] || String::try_from(&s).map_err(e2s)? != st[0] {
                return Err(format!("utf8 scalar | {st:?}"));
            }
            if Scalar::from(st[0].clone()) != s || Scalar::utf8(st[0].clone(), Nullability::NonNullable) != s {
                return Err("utf8 scalar | constructors differ".into());
            }
            let o = Scalar::from(None::<String>);
            if !o.is_null() || o.dtype() != &DType::Utf8(Nullability::Nullable) || String::try_from(&o).is_ok() || BufferString::try_from(&o).is_ok() {
                return Err("utf8 scalar | None".into());
            }
            let l = Scalar::from(st.clone());
            let back = Vec::<String>::try_from(&l).map_err(e2s)?;
            if back != st || l.dtype() != &DType::List(Arc::new(DType::Utf8(Nullability::NonNullable)), Nullability::NonNullable) {
                return Err(format!("list scalar | {st:?} became {back:?}"));
            }
            if let Ok(x) = bool::try_from(&s) {
                return Err(format!("utf8 scalar | read as {x}"));
            }
            let bytes = Scalar::binary(Buffer::from(v[0].clone()), nul(g.bool()));
            if Buffer::try_from(&bytes).map_err(e2s)?.as_slice() != v[0] || BufferString::try_from(&bytes).is_ok() {
                return Err("binary scalar | differs".into());
            }
        }
        1 => {
            let v: Vec<i64> = gen_ints(g, PType::I64, 3).into_iter().map(|x| x as i64).collect();
            g.nontrivial = true;
            let l = Scalar::from(v.clone());
            if Vec::<i64>::try_from(&l).map_err(e2s)? != v {
                return Err(format!("list scalar | {v:?}"));
            }
            if !v.is_empty() && Vec::<i32>::try_from(&l).is_ok() {
                return Err("list scalar | read at another type".into());
            }
        }
        2 => {
            let e = gen_dtype(g, 2);
            let n = g.usize(4);
            let vals: Vec<ScalarValue> = (0..n).map(|_| gen_sv(g, &e)).collect();
            g.nontrivial = n > 0;
            let s = if g.chance(1, 6) {
                Scalar::null(DType::List(Arc::new(e.clone()), Nullability::Nullable))
            } else {
                Scalar::list(e.clone(), vals.clone())
            };
            g.note(|| format!("{s:?}"));
            let l = ListScalar::try_from(&s).map_err(e2s)?;
            let n = if s.is_null() { 0 } else { n };
            if l.len() != n || l.is_empty() != (n == 0) || l.element_dtype() != e || l.elements().count() != n || l.element(n).is_some() {
                return Err(format!("list scalar | {s:?} has {} elements", l.len()));
            }
            for (i, x) in l.elements().enumerate() {
                let y = l.element(i).ok_or("list scalar | element missing")?;
                for z in [&x, &y] {
                    if z.dtype() != &e || sv_cmp(z.value(), &vals[i], false) != Some(Ordering::Equal) {
                        return Err(format!("list scalar | element {i} of {s:?} is {z:?}"));
                    }
                }
            }
        }
        _ => {
            let d = loop_struct(g);
            let DType::Struct(st, _) = &d else { unreachable!() };
            let v = gen_sv(g, &d);
            let s = Scalar::new(d.clone(), v.clone());
            let k = st.dtypes().len();
            g.nontrivial = k > 1 && s.is_valid();
            g.note(|| format!("{s:?}"));
            let x = StructScalar::try_from(&s).map_err(e2s)?;
            if x.is_null() != s.is_null() || x.fields().is_some() == s.is_null() {
                return Err("struct scalar | null".into());
            }
            let field = |i: usize| match &v {
                ScalarValue::List(l) => Some((st.dtypes()[i].clone(), l[i].clone())),
                _ => None,
            };
            let check = |got: Option<Scalar>, i: Option<usize>| -> Res {
                let exp = i.and_then(field);
                match (&got, &exp) {
                    (None, None) => Ok(()),
                    (Some(a), Some((d, b))) if a.dtype() == d && sv_cmp(a.value(), b, false) == Some(Ordering::Equal) => Ok(()),
                    _ => Err(format!("struct scalar field | {got:?} expected {exp:?}")),
                }
            };
            for i in 0..k {
                check(x.field_by_idx(i), Some(i))?;
                let n = &st.names()[i];
                check(x.field(n), st.names().iter().position(|m| m == n))?;
            }
            check(x.field_by_idx(k), None)?;
            check(x.field("no such field"), None)?;
            let ix: Vec<usize> = (0..g.usize(4)).map(|_| g.usize(k + 1)).collect();
            let fields: Vec<Field> = ix
                .iter()
                .map(|i| if *i < k && g.bool() { Field::Name(st.names()[*i].to_string()) } else { Field::Index(*i) })
                .collect();
            let real: Vec<usize> = fields
                .iter()
                .map(|f| match f {
                    Field::Name(n) => st.names().iter().position(|m| **m == **n).unwrap_or(usize::MAX),
                    Field::Index(i) => *i,
                })
                .collect();
            let r = guard(|| x.project(&fields)).map_err(|e| format!("struct scalar project panicked | {e}"))?;
            if real.iter().any(|i| *i >= k) {
                if r.is_ok() {
                    return Err(format!("struct scalar project | {fields:?} accepted"));
                }
                return Ok(());
            }
            let r = r.map_err(|e| format!("struct scalar project | {}", e2s(e)))?;
            let want = DType::Struct(
                StructDType::new(real.iter().map(|i| st.names()[*i].clone()).collect::<Vec<_>>().into(), real.iter().map(|i| st.dtypes()[*i].clone()).collect()),
                d.nullability(),
            );
            let wv = match &v {
                ScalarValue::List(l) => ScalarValue::List(real.iter().map(|i| l[*i].clone()).collect::<Vec<_>>().into()),
                _ => ScalarValue::Null,
            };
            if r.dtype() != &want || sv_cmp(r.value(), &wv, false) != Some(Ordering::Equal) {
                return Err(format!("struct scalar project | {fields:?} of {s:?} is {r:?}"));
            }
        }
    }
    Ok(())
}

fn loop_struct(g: &mut G) -> DType {
    let k = g.range(0, 4);
    let names: Vec<Arc<str>> = (0..k).map(|_| name(g).into()).collect();
    DType::Struct(StructDType::new(names.into(), (0..k).map(|_| gen_dtype(g, 2)).collect()), nul(g.bool()))
}

fn p_scalar_datafusion(g: &mut G) -> Res {
    use datafusion_common::ScalarValue as D;
    let d = match g.usize(10) {
        0 => DType::Null,
        1 => DType::Bool(nul(g.bool())),
        2 | 3 | 4 => DType::Primitive(*g.pick(&PTYPES), nul(g.bool())),
        5 => DType::Utf8(nul(g.bool())),
        6 => DType::Binary(nul(g.bool())),
        _ => {
            let n = g.bool();
            temporal_ty(g, n).dtype()
        }
    };
    let d = if g.bool() { d.as_nullable() } else { d };
    let v = gen_sv(g, &d);
    let s = Scalar::new(d.clone(), v);
    g.nontrivial = s.is_valid();
    g.note(|| format!("{s:?}"));
    let x = D::try_from(s.clone()).map_err(|e| format!("to datafusion | {}", e2s(e)))?;
    if x.is_null() != s.is_null() {
        return Err(format!("to datafusion | {s:?} is {x:?}"));
    }
    // the same value as the one-element Arrow array
    if let Ok(dt) = <Arc<dyn arrow_array::Datum>>::try_from(&s) {
        let (arr, _) = dt.get();
        let y = D::try_from_array(arr, 0).map_err(|e| format!("{e}"))?;
        let bytes = matches!(d, DType::Utf8(_) | DType::Binary(_));
        if !bytes && (y.data_type() != x.data_type() || !df_eq(&x, &y)) {
            return Err(format!("to datafusion | {s:?} is {x:?}, as Arrow {y:?}"));
        }
    }
    let back = Scalar::from(x.clone());
    if !back.dtype().eq_ignore_nullability(&d) || sv_cmp(back.value(), s.value(), false) != Some(Ordering::Equal) {
        return Err(format!("from datafusion | {s:?} became {x:?} became {back:?}"));
    }
    // string and binary variants
    if let D::Utf8(o) = &x {
        for y in [D::LargeUtf8(o.clone()), D::Utf8View(o.clone())] {
            if Scalar::from(y.clone()) != back {
                return Err(format!("from datafusion | {y:?} became {:?}", Scalar::from(y.clone())));
            }
        }
    }
    if let D::Binary(o) = &x {
        for y in [D::LargeBinary(o.clone()), D::BinaryView(o.clone())] {
            if Scalar::from(y.clone()) != back {
                return Err(format!("from datafusion | {y:?} became {:?}", Scalar::from(y.clone())));
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C19",
            rule: "a nested type / at least two fields / a type other than null / distinct values / a value other than 0",
            assumptions: &["calendar values are checked inside the range of the jiff library"],
            subs: vec![
                Sub { name: "dtype_serde", f: p_dtype_serde, quick: 600000, thorough: 2000000 },
                Sub { name: "dtype_malformed", f: p_dtype_bad, quick: 900000, thorough: 4000000 },
                Sub { name: "schema", f: p_schema, quick: 600000, thorough: 2000000 },
                Sub { name: "nullability", f: p_nullability, quick: 450000, thorough: 2000000 },
                Sub { name: "ptype", f: p_ptype, quick: 300000, thorough: 1000000 },
                Sub { name: "temporal", f: p_temporal, quick: 900000, thorough: 4000000 },
            ],
            known: vec![],
        },
        Prop {
            id: "C20",
            rule: "scalars that are not null (different types for casts and conversions, non-empty lists and structs)",
            assumptions: &["JSON round trips are not required of bytes and non-finite floats, which JSON cannot express"],
            subs: vec![
                Sub { name: "serde", f: p_scalar_serde, quick: 900000, thorough: 4000000 },
                Sub { name: "malformed", f: p_scalar_bad, quick: 900000, thorough: 4000000 },
                Sub { name: "order", f: p_scalar_order, quick: 900000, thorough: 3000000 },
                Sub { name: "cast", f: p_scalar_cast, quick: 900000, thorough: 3000000 },
                Sub { name: "display", f: p_scalar_display, quick: 600000, thorough: 2000000 },
                Sub { name: "native", f: p_scalar_native, quick: 900000, thorough: 3000000 },
                Sub { name: "nested", f: p_scalar_nested, quick: 600000, thorough: 2000000 },
                Sub { name: "datafusion", f: p_scalar_datafusion, quick: 600000, thorough: 2000000 },
            ],
            known: vec![],
        },
    ]
}
