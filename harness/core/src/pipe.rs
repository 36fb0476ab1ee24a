//! One stage of the compiler at a time, observed from outside.
use crate::json::{codes, J};
use crate::term::{from_name, from_real, text_of, to_real, Spans, T};
use chomp::chomp::ast::error::ReductionError;
use chomp::chomp::ast::substitute::Reduce;
use chomp::chomp::ast::NamedExpression;
use chomp::chomp::name::Name;
use chomp::chomp::typed::context::{Context, GetVariableError};
use chomp::chomp::typed::error::{AltError, CatError, TypeError};
use chomp::chomp::typed::lower::{Backend, GenerateCode};
use chomp::chomp::typed::{
    Alt, Cat, Epsilon, Fix, Literal, Type, TypeInfer, Typed, TypedExpression, Variable,
};
use chomp::chomp::visit::Visitable;
use chomp::lower::RustBackend;
use chomp::nibble::{self, convert::{Convert, ConvertError}};
use proc_macro2::{Span, TokenStream};

use std::panic::{catch_unwind, AssertUnwindSafe};

/// Run f, turning a panic into a message.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        }
    })
}

pub fn panic_j(msg: String) -> J {
    obj! {st: "panic", msg: codes(&msg)}
}

pub fn span_j(sp: &Spans, s: Span) -> J {
    let (a, b) = sp.from(s);
    J::Arr(vec![J::Int(a), J::Int(b)])
}

pub fn reduce_real(e: NamedExpression) -> Result<NamedExpression, ReductionError> {
    e.fold(&mut Reduce)
}

pub fn reduction_error_j(e: ReductionError, sp: &Spans) -> J {
    let mut j = match &e {
        ReductionError::CallNotAFunction { .. } => obj! {st: "err", e: "notfun"},
        ReductionError::WrongArgCount { lambda, args, .. } => {
            obj! {st: "err", e: "arity", want: lambda.args.len(), have: args.len()}
        }
    };
    said(&mut j, e.to_string(), e.into(), sp);
    j
}

/// Where a diagnostic points and what it says, both ways it is shown.
fn said(j: &mut J, msg: String, err: syn::Error, sp: &Spans) {
    j.set("sp", span_j(sp, err.span()));
    j.set("msg", codes(&msg));
    j.set("syn", codes(&err.to_string()));
}

pub fn reduce(t: &T, sp: &Spans) -> J {
    let e = to_real(t, sp);
    match guard(|| reduce_real(e)) {
        Ok(Ok(r)) => obj! {st: "ok", t: from_real(&r, sp).to_j()},
        Ok(Err(e)) => reduction_error_j(e, sp),
        Err(m) => panic_j(m),
    }
}

pub fn infer_real(e: NamedExpression) -> Result<TypedExpression, TypeError> {
    let mut context = Context::default();
    e.fold(&mut TypeInfer { context: &mut context })
}

pub fn type_error_j(e: TypeError, sp: &Spans) -> J {
    let kind = match &e {
        TypeError::Cat(CatError::FirstNullable { .. }) => "cat_null",
        TypeError::Cat(CatError::FirstFlastOverlap { .. }) => "cat_overlap",
        TypeError::Alt(AltError::BothNullable { .. }) => "alt_null",
        TypeError::Alt(AltError::FirstOverlap { .. }) => "alt_overlap",
        TypeError::Variable(v) => match v.inner {
            GetVariableError::FreeVariable => "free",
            GetVariableError::GuardedVariable => "guarded",
        },
        TypeError::UnexpectedCall { .. } => "call",
        TypeError::UnexpectedLambda { .. } => "lam",
        TypeError::UnexpectedLet { .. } => "let",
        TypeError::ExpectedLambda { .. } => "fix",
    };
    let mut j = obj! {st: "err", e: kind};
    said(&mut j, e.to_string(), e.into(), sp);
    j
}

pub fn infer(t: &T, sp: &Spans) -> J {
    let e = to_real(t, sp);
    match guard(|| infer_real(e)) {
        Ok(Ok(tt)) => match guard(|| dump_typed(tt)) {
            Ok(j) => obj! {st: "ok", tt: j},
            Err(m) => panic_j(m),
        },
        Ok(Err(e)) => type_error_j(e, sp),
        Err(m) => panic_j(m),
    }
}

/// A code generation backend that records the typed term instead.
#[derive(Default)]
pub struct Dump;

fn chars_j(v: impl IntoIterator<Item = char>) -> J {
    let mut v: Vec<char> = v.into_iter().collect();
    v.sort_unstable();
    v.dedup();
    J::Arr(v.into_iter().map(J::from).collect())
}

pub fn ty_j(t: &Type) -> J {
    obj! {null: t.nullable(), first: chars_j(t.first_set().clone()), flast: chars_j(t.flast_set().clone())}
}

fn n_j(n: &Option<Name>) -> J {
    let n = from_name(n.as_ref());
    obj! {c: codes(&n.c), k: J::Int(n.k as i64)}
}

impl Backend for Dump {
    type Id = J;
    type Code = J;
    fn gen_epsilon(&mut self, name: Option<Name>, _: Span, eps: Epsilon) -> J {
        obj! {k: "eps", n: n_j(&name), ty: ty_j(eps.get_type())}
    }
    fn gen_literal(&mut self, name: Option<Name>, _: Span, l: Literal) -> J {
        obj! {k: "lit", n: n_j(&name), ty: ty_j(l.get_type()), s: codes(l.inner())}
    }
    fn gen_cat(&mut self, name: Option<Name>, _: Span, c: Cat) -> J {
        let ty = ty_j(c.get_type());
        let es: Vec<J> = c.into_iter().map(|e| e.gen(self)).collect();
        obj! {k: "cat", n: n_j(&name), ty: ty, es: es}
    }
    fn gen_alt(&mut self, name: Option<Name>, _: Span, c: Alt) -> J {
        let ty = ty_j(c.get_type());
        let es: Vec<J> = c.into_iter().map(|e| e.gen(self)).collect();
        obj! {k: "alt", n: n_j(&name), ty: ty, es: es}
    }
    fn gen_fix(&mut self, name: Option<Name>, _: Span, f: Fix) -> J {
        let ty = ty_j(f.get_type());
        let e = f.unwrap().gen(self);
        obj! {k: "fix", n: n_j(&name), ty: ty, e: e}
    }
    fn gen_variable(&mut self, name: Option<Name>, _: Span, v: Variable) -> J {
        obj! {k: "var", n: n_j(&name), ty: ty_j(v.get_type()), i: v.index()}
    }
    fn emit_code(self, _: Option<Name>, _: Span, id: J) -> J {

        id
    }
}

pub fn dump_typed(tt: TypedExpression) -> J {
    let mut d = Dump::default();
    let id = tt.gen(&mut d);
    d.emit_code(None, Span::call_site(), id)
}

pub fn emit(tt: TypedExpression) -> TokenStream {
    emit_named(tt, None)
}

/// Code whose root type goes by a name.
pub fn emit_named(tt: TypedExpression, name: Option<chomp::chomp::name::Name>) -> TokenStream {
    let mut backend = RustBackend::default();
    let id = tt.gen(&mut backend);
    backend.emit_code(name, Span::call_site(), id)
}

// ---------------------------------------------------------------------------
// The front end.

pub enum Front {
    Syntax,
    Undeclared(J),
    Term(NamedExpression),
    Panic(String),
}

pub fn convert(st: impl Convert, sp: &Spans) -> Front {
    match guard(move || st.convert(&mut nibble::convert::Context::default())) {
        Err(m) => Front::Panic(m),
        Ok(Ok(t)) => Front::Term(t),
        Ok(Err(e)) => {
            let c = match &e {
                ConvertError::UndeclaredName(n) => text_of(&n.content),
                #[allow(unreachable_patterns)]
                _ => {
                    let mut j = obj! {st: "refused"};
                    said(&mut j, e.to_string(), e.into(), sp);
                    return Front::Undeclared(j);
                }
            };
            let mut j = obj! {st: "undeclared", c: codes(&c)};
            said(&mut j, e.to_string(), e.into(), sp);
            Front::Undeclared(j)
        }
    }
}

pub fn parse(src: &str) -> Result<Option<nibble::Statement>, String> {
    guard(|| syn::parse_str::<nibble::Statement>(src).ok())
}

pub fn front(src: &str, sp: &Spans) -> Front {
    match parse(src) {
        Err(m) => Front::Panic(m),
        Ok(None) => Front::Syntax,
        Ok(Some(st)) => convert(st, sp),
    }
}

pub fn front_j(f: &Front, sp: &Spans) -> J {
    match f {
        Front::Syntax => obj! {st: "syntax"},
        Front::Undeclared(j) => j.clone(),
        Front::Term(t) => obj! {st: "ok", t: from_real(t, sp).to_j()},
        Front::Panic(m) => panic_j(m.clone()),
    }
}

/// The whole compiler up to typing; diagnostics with their places.
pub fn compile(src: &str, sp: &Spans) -> J {
    let t = match front(src, sp) {
        Front::Term(t) => t,
        Front::Syntax => return obj! {st: "err", e: "syntax", sp: vec![J::Int(0), J::Int(0)]},
        Front::Undeclared(mut j) => {
            j.set("st", J::from("err"));
            j.set("e", J::from("undeclared"));
            return j;
        }
        Front::Panic(m) => return panic_j(m),
    };
    let t = match guard(|| reduce_real(t)) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => return reduction_error_j(e, sp),
        Err(m) => return panic_j(m),
    };
    match guard(|| infer_real(t)) {
        Ok(Ok(tt)) => match guard(|| dump_typed(tt)) {
            Ok(j) => obj! {st: "ok", tt: j},
            Err(m) => panic_j(m),
        },
        Ok(Err(e)) => type_error_j(e, sp),
        Err(m) => panic_j(m),
    }
}
