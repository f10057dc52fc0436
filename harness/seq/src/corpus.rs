/// Hand-written definitions of unusual shapes.
mod corpus {
    use crate::derived::*;
    use crate::vt::{Rng, V};
    use crabslab::{Array, Id, SlabItem};
    use serde_json::{json, Value};
    use std::marker::PhantomData;

    // describes one instance of a struct
    macro_rules! v {
        ($t:ty; $($f:tt : $ft:ty),*) => {
            impl V for $t {
                fn ty() -> Value { json!({"k":"t","ts":[$(<$ft as V>::ty()),*]}) }
                fn gen(r: &mut Rng) -> Self { Self { $($f: V::gen(r)),* } }
                fn js(&self) -> Value { json!([$(self.$f.js()),*]) }
            }
        };
    }

    #[derive(Clone, Copy, Default, SlabItem)]
    pub struct Unit;
    v!(Unit;);
    #[derive(Clone, Copy, Default, SlabItem)]
    #[offsets]
    pub struct Braces {}
    v!(Braces;);
    #[derive(Clone, Copy, Default, SlabItem)]
    #[offsets]
    pub struct Parens();
    v!(Parens;);

    /// Const parameters, defaults, bounds in place and where-clauses.
    #[derive(Clone, Copy, SlabItem)]
    #[offsets]
    pub struct Many<T: Default + Copy, const N: usize = 3>
    where
        [T; N]: Default,
    {
        pub r#type: T,
        pub items: [T; N],
        pub me: Id<Self>,
        pub others: Array<Many<T, N>>,
    }
    v!(Many<u8>; r#type: u8, items: [u8; 3], me: Id<u8>, others: Array<u8>);
    v!(Many<(u8, i64), 2>; r#type: (u8, i64), items: [(u8, i64); 2], me: Id<u8>, others: Array<u8>);
    v!(Many<u64, 0>; r#type: u64, items: [u64; 0], me: Id<u8>, others: Array<u8>);

    /// A lifetime, and a type parameter only used by a phantom.
    #[derive(SlabItem)]
    #[offsets]
    pub struct Phantoms<'a, T> {
        pub a: u8,
        pub b: PhantomData<&'a u8>,
        pub c: PhantomData<*const T>,
        pub d: i64,
    }
    impl V for Phantoms<'static, String> {
        fn ty() -> Value {
            json!({"k":"t","ts":[u8::ty(), {"k":"p"}, {"k":"p"}, i64::ty()]})
        }
        fn gen(r: &mut Rng) -> Self {
            Self { a: V::gen(r), b: PhantomData, c: PhantomData, d: V::gen(r) }
        }
        fn js(&self) -> Value {
            json!([self.a.js(), [], [], self.d.js()])
        }
    }

    pub trait Assoc {
        type X;
    }
    impl Assoc for u32 {
        type X = u64;
    }
    #[derive(Clone, Copy, Default, crabslab::SlabItem)]
    #[offsets]
    #[repr(C)]
    /// Documentation and other attributes.
    pub struct Mixed {
        /// documented
        #[allow(unused)]
        pub a: (u8, i64),
        pub(crate) b: <u32 as Assoc>::X,
        pub c: self::Unit,
        pub d: crate::corpus::Deep,
        pub e: [Unit; 3],
        f: Option<Deepest>,
    }
    v!(Mixed; a: (u8, i64), b: u64, c: Unit, d: Deep, e: [Unit; 3], f: Option<Deepest>);

    /// Fields below the deepest chain.
    #[derive(Clone, Copy, Default, PartialEq, Debug, SlabItem)]
    #[offsets]
    pub struct Deep {
        pub x: u8,
        pub deeper: Deeper,
        pub y: i64,
    }
    v!(Deep; x: u8, deeper: Deeper, y: i64);
    #[derive(Clone, Copy, Default, PartialEq, Debug, SlabItem)]
    #[offsets]
    pub struct Deeper(pub i16, pub Deepest, pub u64, pub Deepest);
    v!(Deeper; 0: i16, 1: Deepest, 2: u64, 3: Deepest);
    #[derive(Clone, Copy, Default, PartialEq, Debug, SlabItem)]
    #[offsets]
    pub struct Deepest {
        pub a_b: u128,
        pub ab: (u8, u8, u8),
        pub a: Option<u64>,
    }
    v!(Deepest; a_b: u128, ab: (u8, u8, u8), a: Option<u64>);

    // the trait is not in scope here
    pub mod plain {
        #[derive(Clone, Copy, Default, crabslab::SlabItem)]
        #[offsets]
        pub struct NoImport {
            pub a: super::Deepest,
            pub b: i8,
        }
        #[derive(Clone, Copy, Default, crabslab::SlabItem)]
        pub enum NoImports {
            #[default]
            A,
            B(i8, super::Deep),
        }
    }
    use plain::*;
    v!(NoImport; a: Deepest, b: i8);
    impl V for NoImports {
        fn ty() -> Value {
            json!({"k":"e","vs":[[], [i8::ty(), Deep::ty()]]})
        }
        fn gen(r: &mut Rng) -> Self {
            match r.below(2) {
                0 => Self::A,
                _ => Self::B(V::gen(r), V::gen(r)),
            }
        }
        fn js(&self) -> Value {
            match self {
                Self::A => json!({"g":0,"f":[]}),
                Self::B(x, y) => json!({"g":1,"f":[x.js(), y.js()]}),
            }
        }
    }

    #[derive(Clone, Copy, Default, SlabItem)]
    pub enum Single {
        #[default]
        Only,
    }
    impl V for Single {
        fn ty() -> Value {
            json!({"k":"e","vs":[[]]})
        }
        fn gen(_: &mut Rng) -> Self {
            Self::Only
        }
        fn js(&self) -> Value {
            json!({"g":0,"f":[]})
        }
    }
    #[derive(Clone, Copy, Default, SlabItem)]
    pub enum Numbered {
        A = 4,
        #[default]
        B = 0,
        C = 2,
        D,
    }
    impl V for Numbered {
        fn ty() -> Value {
            json!({"k":"e","vs":[[],[],[],[]]})
        }
        fn gen(r: &mut Rng) -> Self {
            [Self::A, Self::B, Self::C, Self::D][r.below(4) as usize]
        }
        fn js(&self) -> Value {
            let i = match self {
                Self::A => 0,
                Self::B => 1,
                Self::C => 2,
                Self::D => 3,
            };
            json!({"g":i,"f":[]})
        }
    }
    /// The largest variant is not the last, and one as large.
    #[derive(Clone, Copy, SlabItem)]
    pub enum Sizes<'a, T> {
        Big { index: u64, slab: (T, T), hash: PhantomData<&'a u8> },
        Same(u128),
        Empty(),
        Hollow {},
        Nothing,
        Small(u8),
        Phantom(PhantomData<T>),
        Rec(Id<Sizes<'a, T>>, Option<Single>),
    }
    impl<T> Default for Sizes<'_, T> {
        fn default() -> Self {
            Self::Small(9)
        }
    }
    impl<T: V> V for Sizes<'static, T> where T: 'static {
        fn ty() -> Value {
            let p = || json!({"k":"p"});
            json!({"k":"e","vs":[
                [u64::ty(), T::ty(), T::ty(), p()], [u128::ty()], [], [], [], [u8::ty()], [p()],
                [u32::ty(), <Option<Single>>::ty()]]})
        }
        fn gen(r: &mut Rng) -> Self {
            match r.below(8) {
                0 => Self::Big { index: V::gen(r), slab: (V::gen(r), V::gen(r)), hash: PhantomData },
                1 => Self::Same(V::gen(r)),
                2 => Self::Empty(),
                3 => Self::Hollow {},
                4 => Self::Nothing,
                5 => Self::Small(V::gen(r)),
                6 => Self::Phantom(PhantomData),
                _ => Self::Rec(Id::new(V::gen(r)), V::gen(r)),
            }
        }
        fn js(&self) -> Value {
            match self {
                Self::Big { index, slab, .. } => json!({"g":0,"f":[index.js(), slab.0.js(), slab.1.js(), []]}),
                Self::Same(x) => json!({"g":1,"f":[x.js()]}),
                Self::Empty() => json!({"g":2,"f":[]}),
                Self::Hollow {} => json!({"g":3,"f":[]}),
                Self::Nothing => json!({"g":4,"f":[]}),
                Self::Small(x) => json!({"g":5,"f":[x.js()]}),
                Self::Phantom(_) => json!({"g":6,"f":[[]]}),
                Self::Rec(x, y) => json!({"g":7,"f":[x.inner().js(), y.js()]}),
            }
        }
    }
    /// More variants than a byte counts.
    macro_rules! lots {
        ($($v:ident)*) => {
            #[derive(Clone, Copy, Default, Debug, PartialEq, SlabItem)]
            #[allow(clippy::upper_case_acronyms)]
            pub enum Lots { $($v,)* Item(i64), #[default] Last }
            const ALL: &[Lots] = &[$(Lots::$v),*];
        };
    }
    macro_rules! twenty {
        ($m:ident; $($v:ident)*) => { $m! { $($v)* } };
    }
    twenty!(lots; V0 V1 V2 V3 V4 V5 V6 V7 V8 V9 V10 V11 V12 V13 V14 V15 V16 V17 V18 V19 V20 V21 V22 V23 V24 V25 V26 V27 V28 V29
        V30 V31 V32 V33 V34 V35 V36 V37 V38 V39 V40);
    impl V for Lots {
        fn ty() -> Value {
            let mut vs: Vec<Value> = ALL.iter().map(|_| json!([])).collect();
            vs.push(json!([i64::ty()]));
            vs.push(json!([]));
            json!({"k":"e","vs":vs})
        }
        fn gen(r: &mut Rng) -> Self {
            match r.below(ALL.len() as u64 + 2) as usize {
                i if i < ALL.len() => ALL[i],
                i if i == ALL.len() => Lots::Item(V::gen(r)),
                _ => Lots::Last,
            }
        }
        fn js(&self) -> Value {
            match self {
                Lots::Item(x) => json!({"g":ALL.len(),"f":[x.js()]}),
                Lots::Last => json!({"g":ALL.len() + 1,"f":[]}),
                x => json!({"g":ALL.iter().position(|y| x == y),"f":[]}),
            }
        }
    }

    macro_rules! f {
        ($t:ty, $f:ty, [$($p:expr),*], $o:expr, $s:expr, [$($c:expr),*], $n:tt $(, $m:tt)*; $k:ident $r:ident $out:ident) => {
            field::<$t, $f>(json!([$($p),*]), $o as u32, |id| id $(+ $c)*, |id| Id::new((Id::<u8>::new(0).inner()) + (id $(+ $c)*).inner()), $s,
                |x| &mut x.$n$(.$m)*, $k, $r, $out);
        };
    }

    pub fn run(n: usize, r: &mut Rng, out: &mut Out) {
        many::<Unit>(n, r, out);
        many::<Braces>(n, r, out);
        many::<Parens>(n, r, out);
        many::<[Unit; 4]>(n, r, out);
        many::<Many<u8>>(n, r, out);
        many::<Many<(u8, i64), 2>>(n, r, out);
        many::<Many<u64, 0>>(n, r, out);
        many::<Phantoms<'static, String>>(n, r, out);
        many::<Mixed>(n, r, out);
        many::<NoImport>(n, r, out);
        many::<NoImports>(n, r, out);
        tags::<NoImports>(2, n, r, out);
        many::<Single>(n, r, out);
        tags::<Single>(1, n, r, out);
        many::<Numbered>(n, r, out);
        tags::<Numbered>(4, n, r, out);
        many::<Sizes<'static, u8>>(3 * n, r, out);
        tags::<Sizes<'static, u8>>(8, 3 * n, r, out);
        many::<Sizes<'static, Sizes<'static, (u8, i64)>>>(3 * n, r, out);
        tags::<Sizes<'static, Sizes<'static, (u8, i64)>>>(8, 3 * n, r, out);
        many::<Lots>(3 * n, r, out);
        tags::<Lots>(43, 3 * n, r, out);
        many::<Option<Sizes<'static, u64>>>(n, r, out);

        f!(Many<(u8, i64), 2>, (u8, i64), [0], <Many<(u8, i64), 2>>::OFFSET_OF_TYPE.offset,
            <Many<(u8, i64), 2>>::SLAB_SIZE_OF_TYPE, [<Many<(u8, i64), 2>>::OFFSET_OF_TYPE], r#type; n r out);
        f!(Many<(u8, i64), 2>, [(u8, i64); 2], [1], <Many<(u8, i64), 2>>::OFFSET_OF_ITEMS.offset,
            <Many<(u8, i64), 2>>::SLAB_SIZE_OF_ITEMS, [<Many<(u8, i64), 2>>::OFFSET_OF_ITEMS], items; n r out);
        f!(Many<u64, 0>, Array<Many<u64, 0>>, [3], <Many<u64, 0>>::OFFSET_OF_OTHERS.offset,
            <Many<u64, 0>>::SLAB_SIZE_OF_OTHERS, [<Many<u64, 0>>::OFFSET_OF_OTHERS], others; n r out);
        f!(Phantoms<'static, String>, i64, [3], <Phantoms<'static, String>>::OFFSET_OF_D.offset,
            <Phantoms<'static, String>>::SLAB_SIZE_OF_D, [<Phantoms<'static, String>>::OFFSET_OF_D], d; n r out);
        f!(Mixed, Deep, [3], Mixed::OFFSET_OF_D.offset, Mixed::SLAB_SIZE_OF_D, [Mixed::OFFSET_OF_D], d; n r out);
        f!(Mixed, Option<Deepest>, [5], Mixed::OFFSET_OF_F.offset, Mixed::SLAB_SIZE_OF_F, [Mixed::OFFSET_OF_F], f; n r out);
        f!(Mixed, Option<u64>, [3, 1, 3, 2],
            Mixed::OFFSET_OF_D.offset + Deep::OFFSET_OF_DEEPER.offset + Deeper::OFFSET_OF_3.offset + Deepest::OFFSET_OF_A.offset,
            Deepest::SLAB_SIZE_OF_A,
            [Mixed::OFFSET_OF_D, Deep::OFFSET_OF_DEEPER, Deeper::OFFSET_OF_3, Deepest::OFFSET_OF_A], d, deeper, 3, a; n r out);
        f!(Mixed, u128, [3, 1, 1, 0],
            Mixed::OFFSET_OF_D.offset + Deep::OFFSET_OF_DEEPER.offset + Deeper::OFFSET_OF_1.offset + Deepest::OFFSET_OF_A_B.offset,
            Deepest::SLAB_SIZE_OF_A_B,
            [Mixed::OFFSET_OF_D, Deep::OFFSET_OF_DEEPER, Deeper::OFFSET_OF_1, Deepest::OFFSET_OF_A_B], d, deeper, 1, a_b; n r out);
        f!(NoImport, (u8, u8, u8), [0, 1], NoImport::OFFSET_OF_A.offset + Deepest::OFFSET_OF_AB.offset, Deepest::SLAB_SIZE_OF_AB,
            [NoImport::OFFSET_OF_A, Deepest::OFFSET_OF_AB], a, ab; n r out);
    }
}
