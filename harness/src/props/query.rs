//! C21: expressions; C22: queries through DataFusion
use super::arrays::*;
use super::arrow::*;
use super::files::*;
use super::ipc::concat;
use super::ops::{cmp_model, warm_stats, OPS};
use crate::gen::*;
use crate::model::*;
use crate::pbt::*;
use crate::read::*;
use crate::{Prop, Sub};
use arrow_array::{Array as _, ArrayRef, RecordBatch};
use arrow_schema::{DataType, SchemaRef};
use datafusion::prelude::{DataFrame, SessionConfig, SessionContext};
use datafusion_common::{Column as DfColumn, ScalarValue};
use datafusion_expr::{Expr, Operator as DfOp};
use datafusion_physical_expr::expressions::BinaryExpr as DFBinaryExpr;
use datafusion_physical_expr::PhysicalExpr;
use std::any::Any;
use std::collections::HashSet;
use std::sync::Arc;
use vortex::array::{ChunkedArray, StructArray};
use vortex::arrow::infer_schema;
use vortex::compute::Operator as AOp;
use vortex::{Array, ArrayDType, IntoArray};
use vortex_dtype::field::Field;
use vortex_expr::{split_conjunction, BinaryExpr, Column, Identity, Literal, Operator, Select, VortexExpr};

// ---------------------------------------------------------------- C21

/// an expression over the rows of a struct
#[derive(Clone, Debug)]
enum Ex {
    Col(usize, bool),
    Lit(V, Ty),
    Bin(Box<Ex>, Operator, Box<Ex>),
}

fn aop(op: Operator) -> Option<AOp> {
    Some(match op {
        Operator::Eq => AOp::Eq,
        Operator::NotEq => AOp::NotEq,
        Operator::Gt => AOp::Gt,
        Operator::Gte => AOp::Gte,
        Operator::Lt => AOp::Lt,
        Operator::Lte => AOp::Lte,
        Operator::And | Operator::Or => return None,
    })
}
const XOPS: [Operator; 6] = [Operator::Eq, Operator::NotEq, Operator::Gt, Operator::Gte, Operator::Lt, Operator::Lte];

fn fields(ty: &Ty) -> &[(String, Ty)] {
    match ty {
        Ty::Struct(fs, _) => fs,
        _ => panic!("harness: not a struct"),
    }
}

/// conjunction and disjunction, null where either side is
pub fn logic(and: bool, a: &V, b: &V) -> V {
    match (a, b) {
        (V::Bool(x), V::Bool(y)) => V::Bool(if and { *x && *y } else { *x || *y }),
        _ => V::Null,
    }
}

impl Ex {
    fn ty(&self, fs: &[(String, Ty)]) -> Ty {
        match self {
            Ex::Col(i, _) => fs[*i].1.clone(),
            Ex::Lit(_, t) => t.clone(),
            Ex::Bin(a, _, b) => Ty::Bool(a.ty(fs).nullable() || b.ty(fs).nullable()),
        }
    }
    fn eval(&self, row: &[V]) -> V {
        match self {
            Ex::Col(i, _) => row[*i].clone(),
            Ex::Lit(v, _) => v.clone(),
            Ex::Bin(a, op, b) => {
                let (a, b) = (a.eval(row), b.eval(row));
                match aop(*op) {
                    Some(op) => cmp_model(&a, &b, op),
                    None => logic(*op == Operator::And, &a, &b),
                }
            }
        }
    }
    fn expr(&self, fs: &[(String, Ty)]) -> Arc<dyn VortexExpr> {
        match self {
            Ex::Col(i, true) => Arc::new(Column::from(*i)),
            Ex::Col(i, false) => Arc::new(Column::from(fs[*i].0.clone())),
            Ex::Lit(v, t) => Arc::new(Literal::new(v_to_scalar(v, t))),
            Ex::Bin(a, op, b) => Arc::new(BinaryExpr::new(a.expr(fs), *op, b.expr(fs))),
        }
    }
    fn refs(&self, fs: &[(String, Ty)], s: &mut HashSet<Field>) {
        match self {
            Ex::Col(i, true) => {
                s.insert(Field::Index(*i));
            }
            Ex::Col(i, false) => {
                s.insert(Field::Name(fs[*i].0.clone()));
            }
            Ex::Lit(..) => {}
            Ex::Bin(a, _, b) => {
                a.refs(fs, s);
                b.refs(fs, s)
            }
        }
    }
    /// a copy with one place changed so that the expression is a different one
    fn mutated(&self, g: &mut G, fs: &[(String, Ty)]) -> Option<Ex> {
        match self {
            Ex::Col(i, x) => {
                if fs.len() > 1 && g.bool() {
                    Some(Ex::Col((*i + 1) % fs.len(), *x))
                } else {
                    Some(Ex::Col(*i, !x))
                }
            }
            Ex::Lit(v, t) => {
                let w = gen_nn(g, t, 1).pop().unwrap();
                (!w.num_eq(v) && &w != v).then(|| Ex::Lit(w, t.clone()))
            }
            Ex::Bin(a, op, b) => Some(match g.usize(3) {
                0 => Ex::Bin(Box::new(a.mutated(g, fs)?), *op, b.clone()),
                1 => Ex::Bin(a.clone(), *op, Box::new(b.mutated(g, fs)?)),
                _ => {
                    let ops: Vec<Operator> = XOPS.iter().copied().chain([Operator::And, Operator::Or]).filter(|o| o != op).collect();
                    Ex::Bin(a.clone(), *g.pick(&ops), b.clone())
                }
            }),
        }
    }
    fn size(&self) -> usize {
        match self {
            Ex::Bin(a, _, b) => 1 + a.size() + b.size(),
            _ => 1,
        }
    }
}

fn cmp_ty(t: &Ty) -> bool {
    !matches!(t, Ty::Struct(..) | Ty::Null | Ty::Ext(..))
}

fn gen_operand(g: &mut G, col: &Col, t: &Ty, depth: u32) -> Ex {
    let fs = fields(&col.ty);
    if matches!(t, Ty::Bool(_)) && depth > 0 && g.chance(1, 3) {
        return gen_bool(g, col, depth - 1);
    }
    let same: Vec<usize> = (0..fs.len()).filter(|i| fs[*i].1.with_null(false) == t.with_null(false)).collect();
    if !same.is_empty() && g.bool() {
        return Ex::Col(*g.pick(&same), g.chance(1, 3));
    }
    let from: Vec<V> = if !same.is_empty() && col.len() > 0 { col.field(*g.pick(&same)).vals } else { vec![] };
    let t = t.with_null(g.bool());
    let mut v = if !from.is_empty() && g.chance(3, 4) { from[g.usize(from.len())].clone() } else { gen_vals(g, &t, 1).pop().unwrap() };
    if v.is_null() && !(t.nullable() && g.chance(1, 4)) {
        v = gen_nn(g, &t, 1).pop().unwrap();
    }
    Ex::Lit(v, t)
}

fn gen_bool(g: &mut G, col: &Col, depth: u32) -> Ex {
    let fs = fields(&col.ty);
    if depth > 0 && g.chance(3, 5) {
        let op = if g.chance(3, 5) { Operator::And } else { Operator::Or };
        return Ex::Bin(Box::new(gen_bool(g, col, depth - 1)), op, Box::new(gen_bool(g, col, depth - 1)));
    }
    let flags: Vec<usize> = (0..fs.len()).filter(|i| matches!(fs[*i].1, Ty::Bool(_))).collect();
    if g.chance(1, 6) {
        return gen_operand(g, col, &Ty::Bool(false), 0);
    }
    if !flags.is_empty() && g.chance(1, 4) {
        return Ex::Col(*g.pick(&flags), g.chance(1, 3));
    }
    let cmp: Vec<usize> = (0..fs.len()).filter(|i| cmp_ty(&fs[*i].1)).collect();
    let t = if !cmp.is_empty() { fs[*g.pick(&cmp)].1.clone() } else { Ty::Bool(false) };
    let l = gen_operand(g, col, &t, depth.min(1));
    let r = gen_operand(g, col, &t, depth.min(1));
    Ex::Bin(Box::new(l), *g.pick(&XOPS), Box::new(r))
}

/// a struct array of the given struct column (its fields in any encoding)
fn gen_struct(g: &mut G, col: &Col) -> Result<(Array, String), String> {
    let fs = fields(&col.ty);
    let mut arrays = vec![];
    let mut d = String::new();
    for i in 0..fs.len() {
        let (a, x) = build(g, &col.field(i), 2)?;
        if g.chance(1, 4) {
            warm_stats(g, &a);
        }
        d.push_str(&format!("{} ", x));
        arrays.push(a);
    }
    let names: Vec<Arc<str>> = fs.iter().map(|f| f.0.as_str().into()).collect();
    let s = StructArray::try_new(names.into(), arrays, col.len(), vortex::validity::Validity::NonNullable).map_err(e2s)?;
    Ok((s.into_array(), d))
}

fn bool_vals(a: &Array, n: usize) -> Result<Vec<V>, String> {
    if !a.dtype().is_boolean() {
        return Err(format!("result type | {}", a.dtype()));
    }
    if a.len() != n {
        return Err(format!("result length | {} for {n} rows", a.len()));
    }
    canonical_vals(a, &Ty::Bool(true)).or_else(|_| canonical_vals(a, &Ty::Bool(false)))
}

fn p_eval(g: &mut G) -> Res {
    let cfg = Cfg { max_len: 300, structs: false, ..Default::default() };
    let ty = gen_struct_ty(g, &cfg, 5);
    let n = gen_len(g, cfg.max_len);
    let col = Col { vals: gen_vals(g, &ty, n), ty };
    let (a, d) = gen_struct(g, &col)?;
    let depth = g.usize(4) as u32;
    let e = gen_bool(g, &col, depth);
    g.note(|| format!("{e:?}\nover {d}: {col:?}"));
    let fs = fields(&col.ty).to_vec();
    let x = e.expr(&fs);
    let model: Vec<V> = col
        .vals
        .iter()
        .map(|r| match r {
            V::Struct(r) => e.eval(r),
            _ => V::Null,
        })
        .collect();
    if e.size() >= 3 && n > 1 && model.iter().any(|v| v != &model[0]) {
        g.nontrivial = true;
    }
    let r = x.evaluate(&a).map_err(|e| format!("evaluate | {}", e2s(e)))?;
    let got = bool_vals(&r, n)?;
    if let Some(d) = diff(&model, &got) {
        return Err(format!("evaluate | {d}"));
    }
    // references
    let mut refs = HashSet::new();
    e.refs(&fs, &mut refs);
    let got: HashSet<Field> = x.references().into_iter().cloned().collect();
    if got != refs {
        return Err(format!("references | {got:?} instead of {refs:?}"));
    }
    // the parts of a conjunction: together as true as the whole
    let parts = split_conjunction(&x);
    let mut all = vec![V::Bool(true); n];
    for p in &parts {
        if let Some(b) = p.as_any().downcast_ref::<BinaryExpr>() {
            if b.op() == Operator::And {
                return Err("split_conjunction | a part is a conjunction".into());
            }
        }
        let r = p.evaluate(&a).map_err(|e| format!("evaluate part | {}", e2s(e)))?;
        for (x, y) in all.iter_mut().zip(bool_vals(&r, n)?) {
            *x = logic(true, x, &y);
        }
    }
    if let Some(d) = diff(&model, &all) {
        return Err(format!("split_conjunction | {d}"));
    }
    let pr: HashSet<Field> = parts.iter().flat_map(|p| p.references().into_iter().cloned().collect::<Vec<_>>()).collect();
    if pr != refs {
        return Err(format!("split_conjunction references | {pr:?} instead of {refs:?}"));
    }
    // the same over a projection to what is referenced
    if col.ty.has(&|_| true) && !refs.is_empty() && e_names_only(&e) {
        let s = StructArray::try_from(&a).map_err(e2s)?;
        let mut f: Vec<Field> = refs.iter().cloned().collect();
        f.sort_by_key(|f| format!("{f}"));
        let s = s.project(&f).map_err(|e| format!("project | {}", e2s(e)))?;
        let r = x.evaluate(s.as_ref()).map_err(|e| format!("evaluate on the referenced fields | {}", e2s(e)))?;
        if let Some(d) = diff(&model, &bool_vals(&r, n)?) {
            return Err(format!("evaluate on the referenced fields | {d}"));
        }
    }
    // equality
    let same = e.expr(&fs);
    let nan = lit_nan(&e);
    if !nan && !same.eq(x.as_any()) {
        return Err("equality | an expression differs from its copy".into());
    }
    let boxed: Arc<dyn VortexExpr> = same.clone();
    let any: &dyn Any = &boxed;
    if !nan && !x.eq(any) {
        return Err("equality | an expression differs from its copy in an Arc".into());
    }
    if let Some(m) = e.mutated(g, &fs) {
        let o = m.expr(&fs);
        if o.eq(x.as_any()) || x.eq(o.as_any()) {
            return Err(format!("equality | equal to a different expression {m:?}"));
        }
    }
    Ok(())
}
fn e_names_only(e: &Ex) -> bool {
    match e {
        Ex::Col(_, i) => !i,
        Ex::Lit(..) => true,
        Ex::Bin(a, _, b) => e_names_only(a) && e_names_only(b),
    }
}
fn lit_nan(e: &Ex) -> bool {
    match e {
        Ex::Lit(v, _) => v.is_nan(),
        Ex::Col(..) => false,
        Ex::Bin(a, _, b) => lit_nan(a) || lit_nan(b),
    }
}

/// swapping the sides with `swap`, negating with `inverse`
fn p_operators(g: &mut G) -> Res {
    let cfg = Cfg { max_len: 200, structs: false, ..Default::default() };
    let ty = gen_struct_ty(g, &cfg, 4);
    let n = gen_len(g, cfg.max_len);
    let col = Col { vals: gen_vals(g, &ty, n), ty };
    let (a, d) = gen_struct(g, &col)?;
    let fs = fields(&col.ty).to_vec();
    let cmp: Vec<usize> = (0..fs.len()).filter(|i| cmp_ty(&fs[*i].1)).collect();
    if cmp.is_empty() {
        return Ok(());
    }
    let t = fs[*g.pick(&cmp)].1.clone();
    let l = gen_operand(g, &col, &t, 0);
    let r = gen_operand(g, &col, &t, 0);
    let op = *g.pick(&XOPS);
    g.note(|| format!("{l:?} {op} {r:?}\nover {d}: {col:?}"));
    let ev = |l: &Ex, op: Operator, r: &Ex| -> Result<Vec<V>, String> {
        let e = BinaryExpr::new(l.expr(&fs), op, r.expr(&fs));
        bool_vals(&e.evaluate(&a).map_err(|e| format!("evaluate | {}", e2s(e)))?, n)
    };
    let x = ev(&l, op, &r)?;
    if x.iter().any(|v| v == &V::Bool(true)) && x.iter().any(|v| v == &V::Bool(false)) {
        g.nontrivial = true;
    }
    let y = ev(&r, op.swap(), &l)?;
    if let Some(d) = diff(&x, &y) {
        return Err(format!("swap | {op} and {} with the sides changed: {d}", op.swap()));
    }
    let inv = op.inverse().ok_or("inverse | none for a comparison")?;
    let z: Vec<V> = ev(&l, inv, &r)?
        .into_iter()
        .map(|v| match v {
            V::Bool(b) => V::Bool(!b),
            v => v,
        })
        .collect();
    if let Some(d) = diff(&x, &z) {
        return Err(format!("inverse | {op} and {inv}: {d}"));
    }
    let o = op.swap();
    if o.swap() != op || inv.inverse() != Some(op) {
        return Err("swap or inverse twice | not the operator".into());
    }
    for o in [Operator::And, Operator::Or] {
        if o.swap() != o || o.inverse().is_some() {
            return Err(format!("{o} | swap {} inverse {:?}", o.swap(), o.inverse()));
        }
    }
    Ok(())
}

fn p_select(g: &mut G) -> Res {
    let cfg = Cfg { max_len: 100, ..Default::default() };
    let ty = gen_struct_ty(g, &cfg, 6);
    let k = g.range(1, 3);
    let chunked = g.chance(1, 3);
    let mut cols = vec![];
    let mut arrays = vec![];
    for _ in 0..if chunked { k } else { 1 } {
        let n = gen_len(g, cfg.max_len);
        let col = Col { vals: gen_vals(g, &ty, n), ty: ty.clone() };
        arrays.push(gen_struct(g, &col)?.0);
        cols.push(col);
    }
    let col = concat(&ty, &cols);
    let a = if chunked { ChunkedArray::try_new(arrays, ty.dtype()).map_err(e2s)?.into_array() } else { arrays.pop().unwrap() };
    let fs = fields(&ty).to_vec();
    let mut pick: Vec<usize> = (0..fs.len()).filter(|_| g.bool()).collect();
    if g.bool() {
        pick.reverse();
    }
    let f: Vec<Field> = pick.iter().map(|i| if g.chance(1, 3) { Field::Index(*i) } else { Field::Name(fs[*i].0.clone()) }).collect();
    let include = g.bool();
    let order: Vec<usize> = if include { pick.clone() } else { (0..fs.len()).filter(|i| !pick.contains(i)).collect() };
    if order.is_empty() {
        // the rows of no columns: a struct array of no fields keeps its length
        g.label("no_columns");
    }
    if order.len() < fs.len() && order.len() > 1 && col.len() > 0 {
        g.nontrivial = true;
    }
    g.note(|| format!("{} {f:?} of {col:?}", if include { "include" } else { "exclude" }));
    let s = if include { Select::include(f.clone()) } else { Select::exclude(f.clone()) };
    let refs: HashSet<Field> = s.references().into_iter().cloned().collect();
    if refs != f.iter().cloned().collect::<HashSet<_>>() {
        return Err(format!("references | {refs:?}"));
    }
    let r = s.evaluate(&a).map_err(|e| format!("select | {}", e2s(e)))?;
    check_all(g, &r, &project(&col, &order)).map_err(|e| format!("select: {e}"))?;
    let r = Identity.evaluate(&a).map_err(|e| format!("identity | {}", e2s(e)))?;
    check_all(g, &r, &col).map_err(|e| format!("identity: {e}"))?;
    if !Identity.references().is_empty() {
        return Err("references | of the identity".into());
    }
    Ok(())
}

// ---------------------------------------------------------------- C22

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("harness: runtime");
    static CTX: SessionContext = SessionContext::new_with_config(SessionConfig::new().with_target_partitions(1));
}

/// the columns of a record batch, of the types a Vortex table shows
fn reference_batch(g: &mut G, schema: &SchemaRef, col: &Col) -> Result<RecordBatch, String> {
    let fs = fields(&col.ty);
    let mut arrays: Vec<ArrayRef> = vec![];
    for (i, f) in fs.iter().enumerate() {
        let c = col.field(i);
        let a = build_arrow(g, &f.1, &c.vals);
        arrays.push(arrow_cast::cast(&a, schema.field(i).data_type()).map_err(|e| format!("harness: cast {e}"))?);
    }
    let o = arrow_array::RecordBatchOptions::new().with_row_count(Some(col.len()));
    RecordBatch::try_new_with_options(schema.clone(), arrays, &o).map_err(|e| format!("harness: batch {e}"))
}

fn dcol(name: &str) -> Expr {
    Expr::Column(DfColumn::from_name(name))
}

fn df_op(op: AOp) -> DfOp {
    match op {
        AOp::Eq => DfOp::Eq,
        AOp::NotEq => DfOp::NotEq,
        AOp::Gt => DfOp::Gt,
        AOp::Gte => DfOp::GtEq,
        AOp::Lt => DfOp::Lt,
        AOp::Lte => DfOp::LtEq,
    }
}

fn bin(l: Expr, op: DfOp, r: Expr) -> Expr {
    datafusion_expr::binary_expr(l, op, r)
}

/// a literal for the field, often one of its values
fn df_lit(g: &mut G, f: &ArrayRef, t: &Ty, null: bool) -> Result<Expr, String> {
    let mut a = f.clone();
    let mut i = if a.len() > 0 { g.usize(a.len()) } else { 0 };
    if a.len() == 0 || g.chance(1, 4) || (a.is_null(i) && !null) {
        let v = gen_nn(g, t, 1);
        a = arrow_cast::cast(&build_arrow(g, t, &v), f.data_type()).map_err(|e| format!("harness: cast {e}"))?;
        i = 0;
    }
    let mut s = ScalarValue::try_from_array(&a, i).map_err(|e| format!("harness: literal {e}"))?;
    // (DataFusion prints the filters of scans, and cannot print every date)
    if guard(|| format!("{s}{s:?}")).is_err() {
        g.excluded += 1;
        let z = arrow_cast::cast(&build_arrow(g, t, &[V::I(0)]), f.data_type()).map_err(|e| format!("harness: cast {e}"))?;
        s = ScalarValue::try_from_array(&z, 0).map_err(|e| format!("harness: literal {e}"))?;
    }
    // SQL literals are of a few types only
    if g.bool() {
        s = match s {
            ScalarValue::Int8(v) => ScalarValue::Int64(v.map(i64::from)),
            ScalarValue::Int16(v) => ScalarValue::Int64(v.map(i64::from)),
            ScalarValue::Int32(v) => ScalarValue::Int64(v.map(i64::from)),
            ScalarValue::UInt8(v) => ScalarValue::Int64(v.map(i64::from)),
            ScalarValue::UInt16(v) => ScalarValue::Int64(v.map(i64::from)),
            ScalarValue::UInt32(v) => ScalarValue::Int64(v.map(i64::from)),
            ScalarValue::Float32(v) => ScalarValue::Float64(v.map(f64::from)),
            ScalarValue::Utf8View(v) => ScalarValue::Utf8(v),
            ScalarValue::BinaryView(v) => ScalarValue::Binary(v),
            s => s,
        };
    }
    Ok(Expr::Literal(s))
}

fn ordered(t: &DataType) -> bool {
    !matches!(t, DataType::Struct(_) | DataType::Null | DataType::Float16)
}

fn gen_df(g: &mut G, b: &RecordBatch, fs: &[(String, Ty)], depth: u32) -> Result<Expr, String> {
    if depth > 0 && g.chance(3, 5) {
        let x = gen_df(g, b, fs, depth - 1)?;
        if g.chance(1, 8) {
            return Ok(Expr::Not(Box::new(x)));
        }
        let y = gen_df(g, b, fs, depth - 1)?;
        return Ok(bin(x, if g.bool() { DfOp::And } else { DfOp::Or }, y));
    }
    if g.chance(1, 40) {
        return Ok(Expr::Literal(ScalarValue::Boolean(*g.pick(&[Some(true), Some(false), None]))));
    }
    let flags: Vec<usize> = (0..fs.len()).filter(|i| matches!(fs[*i].1, Ty::Bool(_))).collect();
    if !flags.is_empty() && g.chance(1, 4) {
        return Ok(dcol(&fs[*g.pick(&flags)].0));
    }
    let i = g.usize(fs.len());
    let c = dcol(&fs[i].0);
    if g.chance(1, 10) {
        return Ok(if g.bool() { Expr::IsNull(Box::new(c)) } else { Expr::IsNotNull(Box::new(c)) });
    }
    if !ordered(b.column(i).data_type()) {
        return Ok(Expr::IsNotNull(Box::new(c)));
    }
    let null = g.chance(1, 8);
    match g.usize(10) {
        0 => {
            let (l, h) = (df_lit(g, b.column(i), &fs[i].1, null)?, df_lit(g, b.column(i), &fs[i].1, null)?);
            Ok(c.between(l, h))
        }
        1 => {
            let mut l = vec![];
            for _ in 0..g.range(1, 4) {
                l.push(df_lit(g, b.column(i), &fs[i].1, null)?);
            }
            Ok(c.in_list(l, g.chance(1, 3)))
        }
        2 | 3 => {
            let same: Vec<usize> = (0..fs.len())
                .filter(|j| {
                    let (x, y) = (b.column(i).data_type(), b.column(*j).data_type());
                    *j != i && (x == y || (x.is_numeric() && y.is_numeric() && ordered(y)))
                })
                .collect();
            if same.is_empty() {
                return Ok(Expr::IsNotNull(Box::new(c)));
            }
            let op = *g.pick(&OPS);
            Ok(bin(c, df_op(op), dcol(&fs[*g.pick(&same)].0)))
        }
        _ => {
            let l = df_lit(g, b.column(i), &fs[i].1, null)?;
            let op = df_op(*g.pick(&OPS));
            Ok(if g.chance(1, 4) { bin(l, op, c) } else { bin(c, op, l) })
        }
    }
}

/// what to do with the rows
#[derive(Clone, Debug)]
enum Shape {
    All,
    Columns(Vec<usize>),
    Limit(usize, usize, Vec<usize>),
    Count,
    Aggregate(Vec<(usize, &'static str)>),
    Group(usize, usize),
    Expr(Box<Expr>),
}

fn gen_shape(g: &mut G, b: &RecordBatch, fs: &[(String, Ty)]) -> Result<Shape, String> {
    let cols = |g: &mut G| -> Vec<usize> {
        let mut v: Vec<usize> = (0..fs.len()).filter(|_| g.bool()).collect();
        if g.chance(1, 3) {
            v.reverse();
        }
        if v.is_empty() {
            v.push(g.usize(fs.len()));
        }
        v
    };
    Ok(match g.usize(8) {
        0 => Shape::All,
        1 | 2 => Shape::Columns(cols(g)),
        3 => {
            let c = cols(g);
            Shape::Limit(g.usize(b.num_rows() + 2), g.usize(b.num_rows() + 2), c)
        }
        4 => Shape::Count,
        5 => {
            let mut v = vec![];
            for _ in 0..g.range(1, 3) {
                let i = g.usize(fs.len());
                let t = b.column(i).data_type();
                // (DataFusion counts the rows of a column of nulls in one way or another)
                if t == &DataType::Null {
                    continue;
                }
                let f = if ordered(t) { *g.pick(&["min", "max", "count", "distinct"]) } else { "count" };
                v.push((i, f));
            }
            v.sort();
            v.dedup();
            if v.is_empty() {
                Shape::Count
            } else {
                Shape::Aggregate(v)
            }
        }
        6 => {
            let k: Vec<usize> = (0..fs.len()).filter(|i| ordered(b.column(*i).data_type())).collect();
            let c: Vec<usize> = (0..fs.len()).filter(|i| b.column(*i).data_type() != &DataType::Null).collect();
            if k.is_empty() {
                Shape::Count
            } else {
                Shape::Group(*g.pick(&k), *g.pick(&c))
            }
        }
        _ => Shape::Expr(Box::new(gen_df(g, b, fs, 1)?)),
    })
}

fn query(df: DataFrame, filters: &[Expr], shape: &Shape, fs: &[(String, Ty)]) -> datafusion_common::Result<DataFrame> {
    use datafusion::functions_aggregate::expr_fn::{count, count_distinct, max, min};
    let mut df = df;
    for f in filters {
        df = df.filter(f.clone())?;
    }
    let pick = |v: &[usize]| -> Vec<Expr> { v.iter().map(|i| dcol(&fs[*i].0)).collect() };
    let one = || Expr::Literal(ScalarValue::Int64(Some(1)));
    match shape {
        Shape::All => Ok(df),
        Shape::Columns(c) => df.select(pick(c)),
        Shape::Limit(s, n, c) => df.limit(*s, Some(*n))?.select(pick(c)),
        Shape::Count => df.aggregate(vec![], vec![count(one())]),
        Shape::Aggregate(v) => {
            let e = v
                .iter()
                .map(|(i, f)| {
                    let c = dcol(&fs[*i].0);
                    match *f {
                        "min" => min(c),
                        "max" => max(c),
                        "distinct" => count_distinct(c),
                        _ => count(c),
                    }
                })
                .collect();
            df.aggregate(vec![], e)
        }
        Shape::Group(k, c) => df.aggregate(vec![dcol(&fs[*k].0)], vec![count(dcol(&fs[*c].0)), count(one()).alias("n")]),
        Shape::Expr(e) => df.select(vec![(**e).clone().alias("x")]),
    }
}

fn run(df: datafusion_common::Result<DataFrame>) -> Result<RecordBatch, String> {
    let df = df.map_err(|e| format!("plan: {e}"))?;
    let schema: SchemaRef = Arc::new(df.schema().as_arrow().clone());
    let bs = RT.with(|rt| rt.block_on(df.collect())).map_err(|e| format!("run: {e}"))?;
    let schema = bs.first().map(|b| b.schema()).unwrap_or(schema);
    if schema.fields().is_empty() {
        return Ok(RecordBatch::new_empty(schema));
    }
    arrow_select::concat::concat_batches(&schema, &bs).map_err(|e| format!("batches: {e}"))
}

fn rows_text(b: &RecordBatch) -> Result<Vec<String>, String> {
    let o = arrow::util::display::FormatOptions::default().with_null("NULL");
    let f: Vec<_> = b
        .columns()
        .iter()
        .map(|c| arrow::util::display::ArrayFormatter::try_new(c.as_ref(), &o))
        .collect::<Result<_, _>>()
        .map_err(|e| format!("harness: format {e}"))?;
    Ok((0..b.num_rows()).map(|i| f.iter().map(|f| f.value(i).to_string()).collect::<Vec<_>>().join(" | ")).collect())
}

fn same_rows(a: &ArrayRef, b: &ArrayRef) -> bool {
    let rows = |c: &ArrayRef| {
        let r = arrow::row::RowConverter::new(vec![arrow::row::SortField::new(c.data_type().clone())]).ok()?;
        let rows = r.convert_columns(&[c.clone()]).ok()?;
        Some(rows.iter().map(|r| r.data().to_vec()).collect::<Vec<_>>())
    };
    rows(a).is_some_and(|x| Some(x) == rows(b))
}

fn compare_batches(exp: &RecordBatch, got: &RecordBatch, ordered: bool) -> Res {
    let types = |b: &RecordBatch| b.schema().fields().iter().map(|f| format!("{} {}", f.name(), f.data_type())).collect::<Vec<_>>();
    if types(exp) != types(got) {
        return Err(format!("result schema | {:?} instead of {:?}", types(got), types(exp)));
    }
    if exp.num_rows() != got.num_rows() {
        return Err(format!("result rows | {} instead of {}", got.num_rows(), exp.num_rows()));
    }
    if exp.columns().iter().zip(got.columns()).all(|(a, b)| a == b) {
        return Ok(());
    }
    let (mut a, mut b) = match guard(|| Ok::<_, String>((rows_text(exp)?, rows_text(got)?))) {
        Ok(r) => r?,
        Err(_) => return Err("result | differs (in values some of which do not print)".into()),
    };
    if !ordered {
        a.sort();
        b.sort();
        if a == b {
            return Ok(());
        }
    }
    for i in 0..a.len() {
        if a[i] != b[i] {
            return Err(format!("result | row {i} is {} instead of {}", b[i], a[i]));
        }
    }
    // arrow's comparison of view arrays inside structs looks at what is stored under nulls
    let same = exp.columns().iter().zip(got.columns()).all(|(a, b)| a == b || same_rows(a, b));
    if same {
        return Ok(());
    }
    Err("result | differs in values that print alike".into())
}

struct Tables {
    ty: Ty,
    vortex: DataFrame,
    reference: DataFrame,
    batch: RecordBatch,
}

fn table_ty(g: &mut G, cfg: &Cfg) -> Ty {
    loop {
        let t = gen_struct_ty(g, cfg, 5);
        if has_arrow(&t) {
            return t;
        }
    }
}

fn gen_tables(g: &mut G, disk: bool) -> Result<Tables, String> {
    let cfg = Cfg { max_len: 200, ..Default::default() };
    let ty = table_ty(g, &cfg);
    let schema: SchemaRef = Arc::new(infer_schema(&ty.dtype()).map_err(|e| format!("infer_schema | {}", e2s(e)))?);
    let mut cols = vec![];
    let ctx = CTX.with(|c| c.clone());
    let vortex = if disk {
        use vortex_datafusion::persistent::config::{VortexFile, VortexTableOptions};
        use vortex_datafusion::SessionContextExt;
        let store = Arc::new(object_store::memory::InMemory::new());
        let mut files = vec![];
        let k = if g.chance(1, 20) { 0 } else { g.range(1, 3) };
        for i in 0..k {
            let (arrays, cs) = gen_batches(g, &ty, &cfg, 3)?;
            let bytes = write_any(g, &ty, arrays).map_err(|e| format!("write error | {e}"))?;
            let path = format!("dir/f{i}.vortex");
            let n = bytes.len() as u64;
            RT.with(|rt| {
                rt.block_on(object_store::ObjectStore::put(&*store, &object_store::path::Path::from(path.clone()), bytes.into()))
            })
            .map_err(|e| format!("harness: store {e}"))?;
            files.push(VortexFile::new(path, n));
            cols.extend(cs);
        }
        let url = datafusion_execution::object_store::ObjectStoreUrl::parse("vx://test").map_err(|e| format!("harness: {e}"))?;
        ctx.runtime_env().register_object_store(url.as_ref(), store);
        let o = VortexTableOptions::new(schema.clone(), files, crate::gen::ctx());
        ctx.read_disk_vortex_opts(url, o).map_err(|e| format!("table | {e}"))?
    } else {
        use vortex_datafusion::memory::VortexMemTableOptions;
        use vortex_datafusion::SessionContextExt;
        let k = if g.chance(1, 12) { 0 } else { g.range(1, 4) };
        let mut arrays = vec![];
        for _ in 0..k {
            let n = gen_len(g, cfg.max_len);
            let col = Col { vals: gen_vals(g, &ty, n), ty: ty.clone() };
            let (a, d) = gen_struct(g, &col)?;
            g.note(|| format!("chunk {d}: {col:?}"));
            arrays.push(a);
            cols.push(col);
        }
        let a = if k == 1 && g.bool() {
            arrays.pop().unwrap()
        } else {
            ChunkedArray::try_new(arrays, ty.dtype()).map_err(e2s)?.into_array()
        };
        let push = g.chance(4, 5);
        ctx.read_mem_vortex_opts(a, VortexMemTableOptions::default().with_pushdown(push)).map_err(|e| format!("table | {e}"))?
    };
    let all = concat(&ty, &cols);
    let batch = reference_batch(g, &schema, &all)?;
    let reference = ctx.read_batch(batch.clone()).map_err(|e| format!("harness: reference {e}"))?;
    Ok(Tables { ty, vortex, reference, batch })
}

fn p_query(g: &mut G, disk: bool) -> Res {
    let t = gen_tables(g, disk)?;
    let fs = fields(&t.ty).to_vec();
    let mut filters = vec![];
    for _ in 0..*g.pick(&[0, 1, 1, 1, 2]) {
        let d = g.usize(3) as u32;
        filters.push(gen_df(g, &t.batch, &fs, d)?);
    }
    let shape = gen_shape(g, &t.batch, &fs)?;
    // (not every date prints)
    g.note(|| {
        guard(|| format!("where {} shape {shape:?}\n", filters.iter().map(|f| f.to_string()).collect::<Vec<_>>().join(" ; ")))
            .unwrap_or_else(|_| "(a query with dates that do not print)".into())
    });
    let exp = match guard(|| run(query(t.reference, &filters, &shape, &fs))) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) | Err(e) => {
            g.label("reference_error");
            g.note(|| e);
            return Ok(());
        }
    };
    g.label(match shape {
        Shape::All => "all",
        Shape::Columns(_) => "columns",
        Shape::Limit(..) => "limit",
        Shape::Count => "count",
        Shape::Aggregate(_) => "aggregate",
        Shape::Group(..) => "group",
        Shape::Expr(_) => "expression",
    });
    if !filters.is_empty() && exp.num_rows() > 0 && t.batch.num_rows() > exp.num_rows() {
        g.nontrivial = true;
    }
    let got = run(query(t.vortex, &filters, &shape, &fs)).map_err(|e| format!("query error | {e}"))?;
    compare_batches(&exp, &got, !matches!(shape, Shape::Group(..)))
}
fn p_mem(g: &mut G) -> Res {
    p_query(g, false)
}
fn p_disk(g: &mut G) -> Res {
    p_query(g, true)
}

/// DataFusion's values, with conjunctions and disjunctions that are null where either side is
fn reference_values(px: &Arc<dyn PhysicalExpr>, batch: &RecordBatch) -> Result<Option<Vec<V>>, String> {
    if let Some(b) = px.as_any().downcast_ref::<DFBinaryExpr>() {
        if matches!(b.op(), DfOp::And | DfOp::Or) {
            let (Some(x), Some(y)) = (reference_values(b.left(), batch)?, reference_values(b.right(), batch)?) else {
                return Ok(None);
            };
            return Ok(Some(x.iter().zip(&y).map(|(x, y)| logic(*b.op() == DfOp::And, x, y)).collect()));
        }
    }
    match px.evaluate(batch).and_then(|v| v.into_array(batch.num_rows())) {
        Ok(x) => Ok(Some(arrow_vals(x.as_ref(), &Ty::Bool(true))?)),
        Err(_) => Ok(None),
    }
}

/// a DataFusion physical expression and what it is converted into
fn p_convert(g: &mut G) -> Res {
    use datafusion_common::ToDFSchema;
    let cfg = Cfg { max_len: 200, structs: false, ..Default::default() };
    let ty = table_ty(g, &cfg);
    let n = gen_len(g, cfg.max_len);
    let col = Col { vals: gen_vals(g, &ty, n), ty: ty.clone() };
    let (a, _) = gen_struct(g, &col)?;
    let schema: SchemaRef = Arc::new(infer_schema(&ty.dtype()).map_err(|e| format!("infer_schema | {}", e2s(e)))?);
    let batch = reference_batch(g, &schema, &col)?;
    let fs = fields(&ty).to_vec();
    let d = g.usize(3) as u32;
    let e = gen_df(g, &batch, &fs, d)?;
    g.note(|| guard(|| format!("{e} over {col:?}")).unwrap_or_else(|_| "(an expression with dates that do not print)".into()));
    let dfs = schema.clone().to_dfschema().map_err(|e| format!("harness: {e}"))?;
    let Ok(px) = CTX.with(|c| c.state().create_physical_expr(e, &dfs)) else {
        g.label("reference_error");
        return Ok(());
    };
    let Some(exp) = reference_values(&px, &batch)? else {
        g.label("reference_error");
        return Ok(());
    };
    let Ok(x) = vortex_expr::datafusion::convert_expr_to_vortex(px.clone()) else {
        g.label("not_converted");
        return Ok(());
    };
    if n > 1 && exp.iter().any(|v| v != &exp[0]) {
        g.nontrivial = true;
    }
    let r = x.evaluate(&a).map_err(|e| format!("evaluate converted | {px} {}", e2s(e)))?;
    match diff(&exp, &bool_vals(&r, n)?) {
        None => Ok(()),
        Some(d) => Err(format!("converted expression | {d}")),
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C21",
            rule: "an expression of at least three nodes whose result differs between rows; a comparison with both outcomes; a selection of some columns",
            assumptions: &["conjunction and disjunction are null where either side is null, as the documentation of filters says"],
            subs: vec![
                Sub { name: "evaluate", f: p_eval, quick: 60_000, thorough: 200000 },
                Sub { name: "operators", f: p_operators, quick: 30_000, thorough: 100000 },
                Sub { name: "select", f: p_select, quick: 30_000, thorough: 100000 },
            ],
            known: vec![],
        },
        Prop {
            id: "C22",
            rule: "a filter that keeps some rows and drops some",
            assumptions: &["DataFusion is right about Arrow tables"],
            subs: vec![
                Sub { name: "convert", f: p_convert, quick: 30_000, thorough: 300000 },
                Sub { name: "memory", f: p_mem, quick: 16_000, thorough: 50000 },
                Sub { name: "files", f: p_disk, quick: 16_000, thorough: 50000 },
            ],
            known: vec![],
        },
    ]
}
