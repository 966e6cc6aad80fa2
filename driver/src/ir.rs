//! Compact monomorphic IR produced from MIR (see lower.rs) and consumed by the abstract interpreter.
use std::rc::Rc;

pub type TyId = u32;
pub type InstId = u32;

#[derive(Clone, Debug, PartialEq)]
pub enum TyK {
    Bool,
    Char,
    Int { bits: u32, signed: bool },
    Float { bits: u32 },
    /// thin or fat pointer / reference (fat = 16 bytes)
    Ptr { pointee: TyId, fat: bool },
    FnPtr,
    Simd { elem: TyId, n: u64 },
    Array { elem: TyId, n: u64 },
    Slice { elem: TyId },
    Str,
    Dyn,
    /// struct, tuple, closure: (offset, type) of each field
    Struct { fields: Vec<(u64, TyId)>, names: Vec<String>, adt: String },
    Enum { layout: Rc<EnumLayout>, adt: String },
    Union,
    FnDef,
    Never,
    Other,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tag {
    Single,
    Direct { off: u64, size: u64 },
    Niche { off: u64, size: u64, untagged: usize, first: usize, last: usize, start: u128 },
}

#[derive(Clone, Debug, PartialEq)]
pub struct EnumLayout {
    pub tag: Tag,
    pub single: usize,
    pub discrs: Vec<u128>,
    pub variants: Vec<(String, Vec<(u64, TyId)>)>,
}

#[derive(Clone, Debug)]
pub struct TyInfo {
    pub size: u64,
    pub sized: bool,
    pub kind: TyK,
    pub name: String,
}

#[derive(Clone, Debug)]
pub enum Proj {
    Off(u64),
    Deref(bool),
    Index { local: u32, stride: u64 },
    ConstEnd { off: u64, stride: u64 },
    Subslice { from: u64, to: u64, from_end: bool, stride: u64 },
}

#[derive(Clone, Debug)]
pub struct Place {
    pub local: u32,
    pub projs: Vec<Proj>,
    pub ty: TyId,
    /// the base local's type when there is no projection at all
    pub array_len: Option<u64>,
}

#[derive(Clone, Debug)]
pub enum CPtr {
    Mem(usize, u64),
    Fn(InstId),
    VTable(TyId),
    Static(String, bool),
}

#[derive(Clone, Debug)]
pub struct CVal {
    pub bytes: Rc<Vec<u8>>,
    pub relocs: Vec<(u64, CPtr)>,
    pub ty: TyId,
    pub init: bool,
}

#[derive(Clone, Debug)]
pub enum Operand {
    Copy(Place),
    Const(CVal),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, AddO, SubO, MulO, Div, Rem, Xor, And, Or, Shl, Shr, Eq, Lt, Le, Ne, Ge, Gt, Cmp, Offset }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum UnOp { Not, Neg, PtrMeta }
#[derive(Clone, Debug, PartialEq)]
pub enum CastK { IntToInt, FloatToInt, FloatToFloat, IntToFloat, PtrToPtr, FnPtrToPtr, Transmute, Reify(InstId), Unsize { len: Option<u64>, vtable: Option<TyId> }, ExposeAddr, FromExposed, Noop }

#[derive(Clone, Debug)]
pub enum Rvalue {
    Use(Operand),
    Repeat(Operand, u64, TyId),
    AddrOf(Place),
    Cast(CastK, Operand, TyId, TyId),
    Bin(BinOp, Operand, Operand, TyId),
    Un(UnOp, Operand, TyId),
    Discr(Place),
    /// fields at offsets; enum variant to tag
    Aggregate(Vec<(u64, Operand)>, TyId, Option<usize>),
    RawPtr(Operand, Operand),
}

#[derive(Clone, Debug)]
pub enum Stmt {
    Assign(Place, Rvalue),
    SetDiscr(Place, usize),
    Dead(u32),
    Live(u32),
    Assume(Operand),
    CopyNonOverlapping(Operand, Operand, Operand, u64),
    Nop,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Inst(InstId),
    Dyn(Operand),
}

#[derive(Clone, Debug)]
pub enum Term {
    Goto(u32),
    Switch(Operand, TyId, Vec<(u128, u32)>, u32),
    Return,
    Unreachable,
    Diverge(&'static str),
    Drop(Place, Option<InstId>, u32),
    Call { callee: Callee, args: Vec<Operand>, arg_tys: Vec<TyId>, dest: Place, target: Option<u32>, rust_call: bool },
    Assert { cond: Operand, expected: bool, target: u32, msg: String },
    Asm(u32),
}

#[derive(Clone, Debug)]
pub struct Block { pub stmts: Vec<(Stmt, u32)>, pub term: Term, pub line: u32, pub cleanup: bool }

pub struct Body {
    pub inst: InstId,
    pub name: String,
    pub file: String,
    pub locals: Vec<TyId>,
    pub nargs: usize,
    pub spread: Option<u32>,
    pub blocks: Vec<Block>,
    /// immediate post-dominator of each block (exit = blocks.len())
    pub ipdom: Vec<u32>,
    /// natural loop for header blocks: set of member blocks
    pub loops: Vec<Option<Rc<Vec<bool>>>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum IK { Item, Intrinsic, Llvm, Virtual(usize), Shim, NoMir }

#[derive(Clone, Debug)]
pub struct InstInfo {
    pub name: String,
    pub sym: String,
    pub kind: IK,
    pub type_args: Vec<TyId>,
    pub const_args: Vec<u128>,
    pub ret: TyId,
    pub local: bool,
    pub is_closure: bool,
    /// instruction-set extensions the function is compiled for, beyond those of every CPU of the target
    pub needs: Vec<String>,
}
