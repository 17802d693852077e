//! Reference model: a column is a logical type plus a vector of plain values.
use std::cmp::Ordering;
use std::sync::Arc;
use vortex_dtype::{DType, ExtDType, Nullability, PType, StructDType};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Null,
    Bool(bool),
    Prim(PType, bool),
    Utf8(bool),
    Bin(bool),
    Struct(Vec<(String, Ty)>, bool),
    /// extension dtype and its storage type (which carries the nullability)
    Ext(ExtDType, Box<Ty>),
}

pub fn nul(b: bool) -> Nullability {
    if b {
        Nullability::Nullable
    } else {
        Nullability::NonNullable
    }
}

impl Ty {
    pub fn nullable(&self) -> bool {
        match self {
            Ty::Null => true,
            Ty::Bool(n) | Ty::Prim(_, n) | Ty::Utf8(n) | Ty::Bin(n) | Ty::Struct(_, n) => *n,
            Ty::Ext(_, s) => s.nullable(),
        }
    }
    pub fn with_null(&self, n: bool) -> Ty {
        match self {
            Ty::Null => Ty::Null,
            Ty::Bool(_) => Ty::Bool(n),
            Ty::Prim(p, _) => Ty::Prim(*p, n),
            Ty::Utf8(_) => Ty::Utf8(n),
            Ty::Bin(_) => Ty::Bin(n),
            Ty::Struct(f, _) => Ty::Struct(f.clone(), n),
            Ty::Ext(e, s) => Ty::Ext(e.clone(), Box::new(s.with_null(n))),
        }
    }
    pub fn dtype(&self) -> DType {
        match self {
            Ty::Null => DType::Null,
            Ty::Bool(n) => DType::Bool(nul(*n)),
            Ty::Prim(p, n) => DType::Primitive(*p, nul(*n)),
            Ty::Utf8(n) => DType::Utf8(nul(*n)),
            Ty::Bin(n) => DType::Binary(nul(*n)),
            Ty::Struct(f, n) => DType::Struct(
                StructDType::new(
                    f.iter().map(|(n, _)| Arc::<str>::from(n.as_str())).collect::<Vec<_>>().into(),
                    f.iter().map(|(_, t)| t.dtype()).collect(),
                ),
                nul(*n),
            ),
            Ty::Ext(e, s) => DType::Extension(e.clone(), nul(s.nullable())),
        }
    }
    pub fn has_ext(&self) -> bool {
        match self {
            Ty::Ext(..) => true,
            Ty::Struct(f, _) => f.iter().any(|(_, t)| t.has_ext()),
            _ => false,
        }
    }
    pub fn is_int(&self) -> bool {
        matches!(self, Ty::Prim(p, _) if p.is_int())
    }
    pub fn is_uint(&self) -> bool {
        matches!(self, Ty::Prim(p, _) if p.is_unsigned_int())
    }
    pub fn is_float(&self) -> bool {
        matches!(self, Ty::Prim(p, _) if p.is_float())
    }
    /// short class name used in labels and support tables
    pub fn class(&self) -> &'static str {
        match self {
            Ty::Null => "null",
            Ty::Bool(_) => "bool",
            Ty::Prim(p, _) if p.is_unsigned_int() => "uint",
            Ty::Prim(p, _) if p.is_int() => "int",
            Ty::Prim(_, _) => "float",
            Ty::Utf8(_) => "utf8",
            Ty::Bin(_) => "binary",
            Ty::Struct(..) => "struct",
            Ty::Ext(..) => "ext",
        }
    }
    pub fn has(&self, f: &dyn Fn(&Ty) -> bool) -> bool {
        f(self)
            || match self {
                Ty::Struct(fs, _) => fs.iter().any(|(_, t)| t.has(f)),
                Ty::Ext(_, s) => s.has(f),
                _ => false,
            }
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum V {
    Null,
    Bool(bool),
    I(i128),
    F16(u16),
    F32(u32),
    F64(u64),
    S(Vec<u8>),
    Struct(Vec<V>),
}

impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            V::Null => write!(f, "null"),
            V::Bool(b) => write!(f, "{b}"),
            V::I(i) => write!(f, "{i}"),
            V::F16(b) => write!(f, "{:?}h", half(*b)),
            V::F32(b) => {
                let x = f32::from_bits(*b);
                if x.is_nan() {
                    write!(f, "NaN#{b:x}f")
                } else {
                    write!(f, "{x:?}f")
                }
            }
            V::F64(b) => {
                let x = f64::from_bits(*b);
                if x.is_nan() {
                    write!(f, "NaN#{b:x}")
                } else {
                    write!(f, "{x:?}")
                }
            }
            V::S(s) => match std::str::from_utf8(s) {
                Ok(s) => write!(f, "{s:?}"),
                Err(_) => write!(f, "b{s:02x?}"),
            },
            V::Struct(v) => {
                write!(f, "{{")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "{x:?}")?;
                }
                write!(f, "}}")
            }
        }
    }
}

fn half(b: u16) -> f32 {
    half::f16::from_bits(b).to_f32()
}

impl V {
    pub fn is_null(&self) -> bool {
        matches!(self, V::Null)
    }
    pub fn int(&self) -> i128 {
        match self {
            V::I(i) => *i,
            _ => panic!("harness: not an int: {self:?}"),
        }
    }
    pub fn f64(&self) -> f64 {
        match self {
            V::F16(b) => half(*b) as f64,
            V::F32(b) => f32::from_bits(*b) as f64,
            V::F64(b) => f64::from_bits(*b),
            V::I(i) => *i as f64,
            _ => panic!("harness: not a float: {self:?}"),
        }
    }
    pub fn is_nan(&self) -> bool {
        match self {
            V::F16(b) => half(*b).is_nan(),
            V::F32(b) => f32::from_bits(*b).is_nan(),
            V::F64(b) => f64::from_bits(*b).is_nan(),
            _ => false,
        }
    }
    pub fn is_neg_zero(&self) -> bool {
        matches!(self, V::F16(0x8000) | V::F32(0x8000_0000) | V::F64(0x8000_0000_0000_0000))
    }
    /// total order on non-null values of one type (floats: IEEE total order)
    pub fn tcmp(&self, o: &V) -> Ordering {
        match (self, o) {
            (V::Bool(a), V::Bool(b)) => a.cmp(b),
            (V::I(a), V::I(b)) => a.cmp(b),
            (V::S(a), V::S(b)) => a.cmp(b),
            (V::F16(a), V::F16(b)) => half::f16::from_bits(*a).total_cmp(&half::f16::from_bits(*b)),
            (V::F32(a), V::F32(b)) => f32::from_bits(*a).total_cmp(&f32::from_bits(*b)),
            (V::F64(a), V::F64(b)) => f64::from_bits(*a).total_cmp(&f64::from_bits(*b)),
            (V::Struct(a), V::Struct(b)) => {
                for (x, y) in a.iter().zip(b) {
                    let c = x.ncmp(y);
                    if c != Ordering::Equal {
                        return c;
                    }
                }
                Ordering::Equal
            }
            (V::Null, V::Null) => Ordering::Equal,
            _ => panic!("harness: tcmp {self:?} {o:?}"),
        }
    }
    /// equal as numbers: 0.0 and -0.0 are, NaNs only if bitwise equal
    pub fn num_eq(&self, o: &V) -> bool {
        self == o
            || match (self, o) {
                (V::F16(a), V::F16(b)) => half::f16::from_bits(*a) == half::f16::from_bits(*b),
                (V::F32(a), V::F32(b)) => f32::from_bits(*a) == f32::from_bits(*b),
                (V::F64(a), V::F64(b)) => f64::from_bits(*a) == f64::from_bits(*b),
                _ => false,
            }
    }
    /// order with nulls last
    pub fn ncmp(&self, o: &V) -> Ordering {
        match (self, o) {
            (V::Null, V::Null) => Ordering::Equal,
            (V::Null, _) => Ordering::Greater,
            (_, V::Null) => Ordering::Less,
            _ => self.tcmp(o),
        }
    }
}

#[derive(Clone, PartialEq)]
pub struct Col {
    pub ty: Ty,
    pub vals: Vec<V>,
}

impl std::fmt::Debug for Col {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}[{}]", self.ty.dtype(), self.vals.len())?;
        if self.vals.len() <= 40 {
            write!(f, "{:?}", self.vals)
        } else {
            write!(f, "{:?}..", &self.vals[..30])
        }
    }
}

impl Col {
    pub fn len(&self) -> usize {
        self.vals.len()
    }
    pub fn slice(&self, a: usize, b: usize) -> Col {
        Col { ty: self.ty.clone(), vals: self.vals[a..b].to_vec() }
    }
    pub fn take(&self, idx: &[usize]) -> Col {
        Col { ty: self.ty.clone(), vals: idx.iter().map(|i| self.vals[*i].clone()).collect() }
    }
    pub fn filter(&self, mask: &[bool]) -> Col {
        Col {
            ty: self.ty.clone(),
            vals: self.vals.iter().zip(mask).filter(|(_, m)| **m).map(|(v, _)| v.clone()).collect(),
        }
    }
    pub fn nulls(&self) -> usize {
        self.vals.iter().filter(|v| v.is_null()).count()
    }
    pub fn field(&self, i: usize) -> Col {
        let Ty::Struct(fs, _) = &self.ty else { panic!("harness: field of non-struct") };
        let t = fs[i].1.clone();
        Col {
            vals: self
                .vals
                .iter()
                .map(|v| match v {
                    V::Struct(x) => x[i].clone(),
                    _ => V::Null,
                })
                .collect(),
            ty: t,
        }
    }
}

pub fn int_range(p: PType) -> (i128, i128) {
    match p {
        PType::U8 => (0, u8::MAX as i128),
        PType::U16 => (0, u16::MAX as i128),
        PType::U32 => (0, u32::MAX as i128),
        PType::U64 => (0, u64::MAX as i128),
        PType::I8 => (i8::MIN as i128, i8::MAX as i128),
        PType::I16 => (i16::MIN as i128, i16::MAX as i128),
        PType::I32 => (i32::MIN as i128, i32::MAX as i128),
        PType::I64 => (i64::MIN as i128, i64::MAX as i128),
        _ => panic!("harness: int_range {p}"),
    }
}

pub fn diff(exp: &[V], got: &[V]) -> Option<String> {
    if exp.len() != got.len() {
        return Some(format!("length {} expected {}", got.len(), exp.len()));
    }
    for (i, (e, g)) in exp.iter().zip(got).enumerate() {
        if e != g {
            return Some(format!("at index {i} of {}: expected {e:?} got {g:?}", exp.len()));
        }
    }
    None
}
