use crate::term::*;
use std::rc::Rc;

pub type V = Rc<Val>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum ITy {
    I8,
    U8,
    I16,
    U16,
    I32,
    U32,
    I64,
    U64,
    Isize,
    Usize,
    I128,
    U128,
    Lit,
}
impl ITy {
    pub fn parse(s: &str) -> Option<ITy> {
        Some(match s {
            "i8" => ITy::I8,
            "u8" => ITy::U8,
            "i16" => ITy::I16,
            "u16" => ITy::U16,
            "i32" => ITy::I32,
            "u32" => ITy::U32,
            "i64" => ITy::I64,
            "u64" => ITy::U64,
            "isize" => ITy::Isize,
            "usize" => ITy::Usize,
            "i128" => ITy::I128,
            "u128" => ITy::U128,
            _ => return None,
        })
    }
    pub fn range(self) -> (i128, i128) {
        match self {
            ITy::I8 => (-128, 127),
            ITy::U8 => (0, 255),
            ITy::I16 => (-32768, 32767),
            ITy::U16 => (0, 65535),
            ITy::I32 | ITy::Lit => (i32::MIN as i128, i32::MAX as i128),
            ITy::U32 => (0, u32::MAX as i128),
            ITy::I64 | ITy::Isize => (i64::MIN as i128, i64::MAX as i128),
            ITy::U64 | ITy::Usize => (0, u64::MAX as i128),
            ITy::I128 => (-(1 << 120), 1 << 120),
            ITy::U128 => (0, 1 << 120),
        }
    }
    pub fn bits(self) -> u32 {
        match self {
            ITy::I8 | ITy::U8 => 8,
            ITy::I16 | ITy::U16 => 16,
            ITy::I32 | ITy::U32 | ITy::Lit => 32,
            ITy::I128 | ITy::U128 => 120,
            _ => 64,
        }
    }
    pub fn signed(self) -> bool {
        self.range().0 < 0
    }
    pub fn unsigned(self) -> ITy {
        match self {
            ITy::I8 => ITy::U8,
            ITy::I16 => ITy::U16,
            ITy::I32 | ITy::Lit => ITy::U32,
            ITy::I64 => ITy::U64,
            ITy::Isize => ITy::Usize,
            ITy::I128 => ITy::U128,
            x => x,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Step {
    Field(usize),
    Slot(usize),
    Payload(Rc<str>, usize),
    MapVal(usize),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Place {
    pub heap: bool,
    pub cell: usize,
    pub path: Vec<Step>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TK {
    Float,
    Int,
    Bool,
}

#[derive(Clone, Debug)]
pub struct TensorV {
    pub cell: usize,
    pub off: usize,
    pub shape: Vec<i64>,
    pub kind: TK,
}
impl TensorV {
    pub fn numel(&self) -> usize {
        self.shape.iter().product::<i64>() as usize
    }
}

pub struct Closure {
    pub expr: &'static syn::ExprClosure,
    pub env: Vec<(Rc<str>, usize)>,
    pub ctx: Ctx,
}

/// static context of the code being executed
#[derive(Clone)]
pub struct Ctx {
    pub f: &'static crate::prog::FnDef,
    pub self_ty: Option<Rc<str>>,
    pub targs: Rc<Vec<(String, Rc<str>)>>,
}

#[derive(Clone)]
pub enum Val {
    Never,
    Unit,
    B(T),
    I(T, ITy),
    F(T),
    Str(Rc<str>),
    Opaque(Rc<str>),
    Tuple(Vec<V>),
    List(Vec<(T, V)>),
    Struct(Rc<str>, Vec<V>),
    Enum(Rc<str>, Vec<(T, Rc<str>, Vec<V>)>),
    Map(bool, Vec<(T, V, V)>), // is_set
    Closure(Rc<Closure>),
    FnItem(Rc<Vec<String>>, Option<Rc<str>>), // path segments, (self type of context)
    Ref(Place),
    Range(Option<V>, Option<V>, bool),
    Tensor(TensorV),
}

impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Val::Never => write!(f, "!"),
            Val::Unit => write!(f, "()"),
            Val::B(t) => write!(f, "b#{}", t),
            Val::I(t, y) => write!(f, "i#{}:{:?}", t, y),
            Val::F(t) => write!(f, "f#{}", t),
            Val::Str(s) => write!(f, "{:?}", s),
            Val::Opaque(s) => write!(f, "<{}>", s),
            Val::Tuple(v) => write!(f, "Tuple{:?}", v),
            Val::List(v) => write!(f, "List{:?}", v),
            Val::Struct(n, v) => write!(f, "{}{:?}", n, v),
            Val::Enum(n, v) => write!(f, "{}::{:?}", n, v),
            Val::Map(_, v) => write!(f, "Map{:?}", v),
            Val::Closure(_) => write!(f, "closure"),
            Val::FnItem(p, _) => write!(f, "fn {:?}", p),
            Val::Ref(p) => write!(f, "&mut {:?}", p),
            Val::Range(a, b, i) => write!(f, "{:?}..{:?}{}", a, b, i),
            Val::Tensor(t) => write!(f, "Tensor{:?}", t.shape),
        }
    }
}

impl Val {
    pub fn kind(&self) -> String {
        match self {
            Val::Never => "never".into(),
            Val::Unit => "()".into(),
            Val::B(_) => "bool".into(),
            Val::I(_, t) => format!("{:?}", t),
            Val::F(_) => "float".into(),
            Val::Str(_) => "str".into(),
            Val::Opaque(s) => format!("opaque {}", s),
            Val::Tuple(_) => "tuple".into(),
            Val::List(_) => "list".into(),
            Val::Struct(n, _) => n.to_string(),
            Val::Enum(n, _) => n.to_string(),
            Val::Map(..) => "map".into(),
            Val::Closure(_) => "closure".into(),
            Val::FnItem(p, _) => format!("fn {:?}", p),
            Val::Ref(_) => "ref".into(),
            Val::Range(..) => "range".into(),
            Val::Tensor(_) => "tensor".into(),
        }
    }
}

#[derive(Debug, Clone)]
pub enum Stop {
    Unsupported(String),
    /// this path is infeasible / was cut by `requires!`
    Cut,
}
pub type R<X> = std::result::Result<X, Stop>;
pub fn unsup<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Unsupported(s.into()))
}
