//! What a declaration says, in terms of our own tokens. `emit` gives the tokens in Rust's grammar order;
//! the stream handed to the library is produced from this model and from nothing else.
use crate::tok::*;

pub trait Emit {
    fn emit(&self, o: &mut Ts);
    fn toks(&self) -> Ts {
        let mut v = Vec::new();
        self.emit(&mut v);
        v
    }
}
impl Emit for R {
    fn emit(&self, o: &mut Ts) {
        o.push(self.clone());
    }
}
impl Emit for Ts {
    fn emit(&self, o: &mut Ts) {
        o.extend(self.iter().cloned());
    }
}
impl<T: Emit> Emit for Option<T> {
    fn emit(&self, o: &mut Ts) {
        if let Some(x) = self {
            x.emit(o)
        }
    }
}
impl Emit for [R; 2] {
    fn emit(&self, o: &mut Ts) {
        o.push(self[0].clone());
        o.push(self[1].clone());
    }
}
pub fn emit_all<T: Emit>(v: &[T], o: &mut Ts) {
    for x in v {
        x.emit(o)
    }
}

pub enum MVal {
    Empty,
    Group(R),
    Eq(R, Ts),
}
pub struct MAttr {
    pub hash: R,
    pub bang: Option<R>,
    pub group: R,
    pub path: Ts,
    pub segs: usize,
    pub val: MVal,
}
impl Emit for MAttr {
    fn emit(&self, o: &mut Ts) {
        self.hash.emit(o);
        self.bang.emit(o);
        self.group.emit(o);
    }
}
pub struct MVis {
    pub t1: R,
    pub t2: Option<R>,
}
impl Emit for MVis {
    fn emit(&self, o: &mut Ts) {
        self.t1.emit(o);
        self.t2.emit(o);
    }
}
pub struct MList<T> {
    pub items: Vec<(T, Option<R>)>,
}
impl<T: Emit> Emit for MList<T> {
    fn emit(&self, o: &mut Ts) {
        for (x, c) in &self.items {
            x.emit(o);
            c.emit(o);
        }
    }
}
pub struct MBound {
    pub colon: R,
    pub toks: Ts,
}
impl Emit for MBound {
    fn emit(&self, o: &mut Ts) {
        self.colon.emit(o);
        self.toks.emit(o);
    }
}
pub struct MGParam {
    pub prefix: Option<R>,
    pub name: R,
    pub bound: Option<MBound>,
}
impl Emit for MGParam {
    fn emit(&self, o: &mut Ts) {
        self.prefix.emit(o);
        self.name.emit(o);
        self.bound.emit(o);
    }
}
pub struct MGen {
    pub lt: R,
    pub params: MList<MGParam>,
    pub gt: R,
}
impl Emit for MGen {
    fn emit(&self, o: &mut Ts) {
        self.lt.emit(o);
        self.params.emit(o);
        self.gt.emit(o);
    }
}
pub struct MPred {
    pub left: Ts,
    pub bound: MBound,
}
impl Emit for MPred {
    fn emit(&self, o: &mut Ts) {
        self.left.emit(o);
        self.bound.emit(o);
    }
}
pub struct MWhere {
    pub kw: R,
    pub preds: MList<MPred>,
}
impl Emit for MWhere {
    fn emit(&self, o: &mut Ts) {
        self.kw.emit(o);
        self.preds.emit(o);
    }
}

pub enum MArg {
    Lifetime(R, R),
    Binding(R, R, Ts),
    Ty(Ts),
}
impl Emit for MArg {
    fn emit(&self, o: &mut Ts) {
        match self {
            MArg::Lifetime(a, b) => {
                a.emit(o);
                b.emit(o);
            }
            MArg::Binding(i, e, t) => {
                i.emit(o);
                e.emit(o);
                t.emit(o);
            }
            MArg::Ty(t) => t.emit(o),
        }
    }
}
pub struct MArgs {
    pub colons: Option<[R; 2]>,
    pub lt: R,
    pub args: MList<MArg>,
    pub gt: R,
}
impl Emit for MArgs {
    fn emit(&self, o: &mut Ts) {
        self.colons.emit(o);
        self.lt.emit(o);
        self.args.emit(o);
        self.gt.emit(o);
    }
}
pub struct MSeg {
    pub sep: Option<[R; 2]>,
    pub ident: R,
    pub args: Option<MArgs>,
}
impl Emit for MSeg {
    fn emit(&self, o: &mut Ts) {
        self.sep.emit(o);
        self.ident.emit(o);
        self.args.emit(o);
    }
}
pub enum PathExp {
    Path(Vec<MSeg>),
    NotPath,
    /// the answer is unspecified, but asking must not panic
    Any,
}
pub struct MTy {
    pub toks: Ts,
    pub path: PathExp,
}
impl Emit for MTy {
    fn emit(&self, o: &mut Ts) {
        self.toks.emit(o)
    }
}
pub struct MTField {
    pub attrs: Vec<MAttr>,
    pub vis: Option<MVis>,
    pub ty: MTy,
}
impl Emit for MTField {
    fn emit(&self, o: &mut Ts) {
        emit_all(&self.attrs, o);
        self.vis.emit(o);
        self.ty.emit(o);
    }
}
pub struct MNField {
    pub attrs: Vec<MAttr>,
    pub vis: Option<MVis>,
    pub name: R,
    pub colon: R,
    pub ty: MTy,
}
impl Emit for MNField {
    fn emit(&self, o: &mut Ts) {
        emit_all(&self.attrs, o);
        self.vis.emit(o);
        self.name.emit(o);
        self.colon.emit(o);
        self.ty.emit(o);
    }
}
pub enum MFields {
    Unit,
    Tuple(R, MList<MTField>),
    Named(R, MList<MNField>),
}
impl Emit for MFields {
    fn emit(&self, o: &mut Ts) {
        match self {
            MFields::Unit => {}
            MFields::Tuple(g, _) | MFields::Named(g, _) => g.emit(o),
        }
    }
}
pub struct MVariant {
    pub attrs: Vec<MAttr>,
    pub vis: Option<MVis>,
    pub name: R,
    pub fields: MFields,
    /// `=` and the value tokens; more than one value token is the documented error
    pub value: Option<(R, Ts)>,
}
impl Emit for MVariant {
    fn emit(&self, o: &mut Ts) {
        emit_all(&self.attrs, o);
        self.vis.emit(o);
        self.name.emit(o);
        self.fields.emit(o);
        if let Some((e, v)) = &self.value {
            e.emit(o);
            v.emit(o);
        }
    }
}
pub struct MQual {
    pub default_: Option<R>,
    pub const_: Option<R>,
    pub async_: Option<R>,
    pub unsafe_: Option<R>,
    pub extern_: Option<R>,
    pub abi: Option<R>,
}
impl Emit for MQual {
    fn emit(&self, o: &mut Ts) {
        self.default_.emit(o);
        self.const_.emit(o);
        self.async_.emit(o);
        self.unsafe_.emit(o);
        self.extern_.emit(o);
        self.abi.emit(o);
    }
}
pub enum MParam {
    Recv { attrs: Vec<MAttr>, amp: Option<R>, lt: Option<[R; 2]>, mut_: Option<R>, self_: R },
    Typed { attrs: Vec<MAttr>, mut_: Option<R>, name: R, colon: R, ty: MTy },
}
impl Emit for MParam {
    fn emit(&self, o: &mut Ts) {
        match self {
            MParam::Recv { attrs, amp, lt, mut_, self_ } => {
                emit_all(attrs, o);
                amp.emit(o);
                lt.emit(o);
                mut_.emit(o);
                self_.emit(o);
            }
            MParam::Typed { attrs, mut_, name, colon, ty } => {
                emit_all(attrs, o);
                mut_.emit(o);
                name.emit(o);
                colon.emit(o);
                ty.emit(o);
            }
        }
    }
}
pub struct MFn {
    pub qual: MQual,
    pub kw: R,
    pub name: R,
    pub gen: Option<MGen>,
    pub parens: R,
    pub params: MList<MParam>,
    pub ret: Option<([R; 2], MTy)>,
    pub wh: Option<MWhere>,
    pub body: Option<R>,
    pub semi: Option<R>,
}
pub enum MK {
    Struct { kw: R, name: R, gen: Option<MGen>, wh: Option<MWhere>, fields: MFields, semi: Option<R> },
    Enum { kw: R, name: R, gen: Option<MGen>, wh: Option<MWhere>, group: R, variants: MList<MVariant> },
    Union { kw: R, name: R, gen: Option<MGen>, wh: Option<MWhere>, group: R, fields: MList<MNField> },
    Mod { uns: Option<R>, kw: R, name: R, semi: Option<R>, group: Option<R>, inner: Vec<MAttr>, members: Vec<MItem> },
    Trait {
        uns: Option<R>,
        kw: R,
        name: R,
        gen: Option<MGen>,
        bound: Option<MBound>,
        wh: Option<MWhere>,
        group: R,
        inner: Vec<MAttr>,
        members: Vec<MItem>,
    },
    Impl {
        uns: Option<R>,
        kw: R,
        gen: Option<MGen>,
        trait_: Option<(MTy, R)>,
        self_ty: MTy,
        wh: Option<MWhere>,
        group: R,
        inner: Vec<MAttr>,
        members: Vec<MItem>,
    },
    Alias { kw: R, name: R, bound: Option<MBound>, val: Option<(R, MTy)>, semi: R },
    Fn(MFn),
    Const { kw: R, mut_: Option<R>, name: R, colon: R, ty: MTy, val: Option<(R, Ts)>, semi: R },
    Use { kw: R, tree: Ts, semi: R },
    Macro { name: R, bang: R, decl: Option<R>, group: R, semi: Option<R> },
    ExternBlock { uns: Option<R>, kw: R, abi: Option<R>, group: R, inner: Vec<MAttr>, members: Vec<MItem> },
    ExternCrate { kw: R, crate_: R, name: R, as_: Option<(R, R)>, semi: R },
}
pub struct MItem {
    pub attrs: Vec<MAttr>,
    pub vis: Option<MVis>,
    pub k: MK,
}
impl Emit for MItem {
    fn emit(&self, o: &mut Ts) {
        emit_all(&self.attrs, o);
        self.vis.emit(o);
        match &self.k {
            MK::Struct { kw, name, gen, wh, fields, semi } => {
                kw.emit(o);
                name.emit(o);
                gen.emit(o);
                if let MFields::Tuple(..) = fields {
                    fields.emit(o);
                    wh.emit(o);
                } else {
                    wh.emit(o);
                    fields.emit(o);
                }
                semi.emit(o);
            }
            MK::Enum { kw, name, gen, wh, group, .. } | MK::Union { kw, name, gen, wh, group, .. } => {
                kw.emit(o);
                name.emit(o);
                gen.emit(o);
                wh.emit(o);
                group.emit(o);
            }
            MK::Mod { uns, kw, name, semi, group, .. } => {
                uns.emit(o);
                kw.emit(o);
                name.emit(o);
                semi.emit(o);
                group.emit(o);
            }
            MK::Trait { uns, kw, name, gen, bound, wh, group, .. } => {
                uns.emit(o);
                kw.emit(o);
                name.emit(o);
                gen.emit(o);
                bound.emit(o);
                wh.emit(o);
                group.emit(o);
            }
            MK::Impl { uns, kw, gen, trait_, self_ty, wh, group, .. } => {
                uns.emit(o);
                kw.emit(o);
                gen.emit(o);
                if let Some((t, f)) = trait_ {
                    t.emit(o);
                    f.emit(o);
                }
                self_ty.emit(o);
                wh.emit(o);
                group.emit(o);
            }
            MK::Alias { kw, name, bound, val, semi } => {
                kw.emit(o);
                name.emit(o);
                bound.emit(o);
                if let Some((e, t)) = val {
                    e.emit(o);
                    t.emit(o);
                }
                semi.emit(o);
            }
            MK::Fn(f) => {
                f.qual.emit(o);
                f.kw.emit(o);
                f.name.emit(o);
                f.gen.emit(o);
                f.parens.emit(o);
                if let Some((a, t)) = &f.ret {
                    a.emit(o);
                    t.emit(o);
                }
                f.wh.emit(o);
                f.body.emit(o);
                f.semi.emit(o);
            }
            MK::Const { kw, mut_, name, colon, ty, val, semi } => {
                kw.emit(o);
                mut_.emit(o);
                name.emit(o);
                colon.emit(o);
                ty.emit(o);
                if let Some((e, v)) = val {
                    e.emit(o);
                    v.emit(o);
                }
                semi.emit(o);
            }
            MK::Use { kw, tree, semi } => {
                kw.emit(o);
                tree.emit(o);
                semi.emit(o);
            }
            MK::Macro { name, bang, decl, group, semi } => {
                name.emit(o);
                bang.emit(o);
                decl.emit(o);
                group.emit(o);
                semi.emit(o);
            }
            MK::ExternBlock { uns, kw, abi, group, .. } => {
                uns.emit(o);
                kw.emit(o);
                abi.emit(o);
                group.emit(o);
            }
            MK::ExternCrate { kw, crate_, name, as_, semi } => {
                kw.emit(o);
                crate_.emit(o);
                name.emit(o);
                if let Some((a, b)) = as_ {
                    a.emit(o);
                    b.emit(o);
                }
                semi.emit(o);
            }
        }
    }
}
impl MItem {
    pub fn kind(&self) -> usize {
        match &self.k {
            MK::Struct { .. } => 0,
            MK::Enum { .. } => 1,
            MK::Union { .. } => 2,
            MK::Mod { .. } => 3,
            MK::Trait { .. } => 4,
            MK::Impl { .. } => 5,
            MK::Alias { .. } => 6,
            MK::Fn(_) => 7,
            MK::Const { .. } => 8,
            MK::Use { .. } => 9,
            MK::Macro { .. } => 10,
            MK::ExternBlock { .. } => 11,
            MK::ExternCrate { .. } => 12,
        }
    }
    pub fn name(&self) -> Option<&R> {
        match &self.k {
            MK::Struct { name, .. }
            | MK::Enum { name, .. }
            | MK::Union { name, .. }
            | MK::Mod { name, .. }
            | MK::Trait { name, .. }
            | MK::Alias { name, .. }
            | MK::Const { name, .. }
            | MK::Macro { name, .. }
            | MK::ExternCrate { name, .. } => Some(name),
            MK::Fn(f) => Some(&f.name),
            MK::Impl { .. } | MK::Use { .. } | MK::ExternBlock { .. } => None,
        }
    }
    pub fn gen(&self) -> Option<&MGen> {
        match &self.k {
            MK::Struct { gen, .. }
            | MK::Enum { gen, .. }
            | MK::Union { gen, .. }
            | MK::Trait { gen, .. }
            | MK::Impl { gen, .. } => gen.as_ref(),
            MK::Fn(f) => f.gen.as_ref(),
            _ => None,
        }
    }
    pub fn wher(&self) -> Option<&MWhere> {
        match &self.k {
            MK::Struct { wh, .. }
            | MK::Enum { wh, .. }
            | MK::Union { wh, .. }
            | MK::Trait { wh, .. }
            | MK::Impl { wh, .. } => wh.as_ref(),
            MK::Fn(f) => f.wh.as_ref(),
            _ => None,
        }
    }
    pub fn members(&self) -> &[MItem] {
        match &self.k {
            MK::Mod { members, .. }
            | MK::Trait { members, .. }
            | MK::Impl { members, .. }
            | MK::ExternBlock { members, .. } => members,
            _ => &[],
        }
    }
}
pub const KINDS: [&str; 13] = [
    "struct", "enum", "union", "mod", "trait", "impl", "type_alias", "fn", "const_static", "use", "macro",
    "extern_block", "extern_crate",
];
