#[macro_export]
macro_rules! register_module {
    ($module:pat, $init:block) => {
        /// what node calls when it loads the module
        pub fn neon_main<'a>($module: $crate::context::ModuleContext<'a>) -> $crate::result::NeonResult<()> {
            $init
        }
    };
    (|$module:pat_param| $init:block) => {
        $crate::register_module!($module, $init);
    };
    (|$module:pat_param| $init:expr) => {
        $crate::register_module!($module, { $init });
    };
}

#[macro_export]
macro_rules! declare_types {
    () => {};
    ( $(#[$a:meta])* pub class $cls:ident for $ty:ty { $($body:tt)* } $($rest:tt)* ) => {
        $crate::declare_types!{@class [$(#[$a])* pub] $cls, $cls, $ty, $($body)*}
        $crate::declare_types!{$($rest)*}
    };
    ( $(#[$a:meta])* class $cls:ident for $ty:ty { $($body:tt)* } $($rest:tt)* ) => {
        $crate::declare_types!{@class [$(#[$a])*] $cls, $cls, $ty, $($body)*}
        $crate::declare_types!{$($rest)*}
    };
    ( $(#[$a:meta])* pub class $cls:ident as $name:ident for $ty:ty { $($body:tt)* } $($rest:tt)* ) => {
        $crate::declare_types!{@class [$(#[$a])* pub] $cls, $name, $ty, $($body)*}
        $crate::declare_types!{$($rest)*}
    };
    ( $(#[$a:meta])* class $cls:ident as $name:ident for $ty:ty { $($body:tt)* } $($rest:tt)* ) => {
        $crate::declare_types!{@class [$(#[$a])*] $cls, $name, $ty, $($body)*}
        $crate::declare_types!{$($rest)*}
    };
    ( @class [$($vis:tt)*] $cls:ident, $name:ident, $ty:ty,
        init($cx:pat) $init:block
        $( $(#[$ma:meta])* method $method:ident($mcx:pat) $mbody:block )*
    ) => {
        #[derive(Copy, Clone)]
        $($vis)* struct $cls($crate::heap::Idx);
        impl $crate::handle::Managed for $cls {
            fn idx(self) -> $crate::heap::Idx { self.0 }
            fn from_idx(i: $crate::heap::Idx) -> Self { $cls(i) }
        }
        impl $crate::types::Value for $cls {
            fn name() -> &'static str { stringify!($name) }
            fn is_typeof(i: $crate::heap::Idx) -> bool {
                $crate::heap::with(i, |s| match s {
                    $crate::heap::Slot::Inst(_, t, _, _) => *t == std::any::TypeId::of::<$cls>(),
                    _ => false,
                })
            }
        }
        impl $crate::object::Object for $cls {}
        impl $crate::object::Class for $cls {
            type Internals = $ty;
            const NAME: &'static str = stringify!($name);
            fn construct<'a>($cx: $crate::context::CallContext<'a, $crate::types::JsUndefined>)
                -> $crate::result::NeonResult<$ty> $init
            fn methods() -> Vec<(&'static str, $crate::object::MethodFn<Self>)> {
                vec![ $( (stringify!($method), {
                    fn method<'a>($mcx: $crate::context::CallContext<'a, $cls>)
                        -> $crate::result::JsResult<'a, $crate::types::JsValue> $mbody
                    method as $crate::object::MethodFn<Self>
                }) ),* ]
            }
        }
    };
}
