//! Dispatch over the crate's 15 string types.

/// Evaluate `$body` with `$T` / `$B` aliased to the borrowed / owned type of production `$p`.
#[macro_export]
macro_rules! per_type {
    ($p:expr, $T:ident, $B:ident, $body:expr) => {{
        #[allow(dead_code)]
        {
            use $crate::rfc::Prod;
            match $p {
                Prod::LanguageTag => { type $T = langtag::LangTag; type $B = langtag::LangTagBuf; $body }
                Prod::Langtag => { type $T = langtag::NormalLangTag; type $B = langtag::NormalLangTagBuf; $body }
                Prod::Privateuse => { type $T = langtag::PrivateUse; type $B = langtag::PrivateUseBuf; $body }
                Prod::Language => { type $T = langtag::Language; type $B = langtag::LanguageBuf; $body }
                Prod::Primary => { type $T = langtag::PrimaryLanguage; type $B = langtag::PrimaryLanguageBuf; $body }
                Prod::Extlang => { type $T = langtag::LanguageExtension; type $B = langtag::LanguageExtensionBuf; $body }
                Prod::ExtlangTag => { type $T = langtag::ExtendedLangTag; type $B = langtag::ExtendedLangTagBuf; $body }
                Prod::Script => { type $T = langtag::Script; type $B = langtag::ScriptBuf; $body }
                Prod::Region => { type $T = langtag::Region; type $B = langtag::RegionBuf; $body }
                Prod::Variant => { type $T = langtag::Variant; type $B = langtag::VariantBuf; $body }
                Prod::Variants => { type $T = langtag::Variants; type $B = langtag::VariantsBuf; $body }
                Prod::Extension => { type $T = langtag::Extension; type $B = langtag::ExtensionBuf; $body }
                Prod::Extensions => { type $T = langtag::Extensions; type $B = langtag::ExtensionsBuf; $body }
                Prod::ExtensionSubtag => { type $T = langtag::ExtensionSubtag; type $B = langtag::ExtensionSubtagBuf; $body }
                Prod::PrivateuseSubtag => { type $T = langtag::PrivateUseSubtag; type $B = langtag::PrivateUseSubtagBuf; $body }
            }
        }
    }};
}

pub fn type_name(p: crate::rfc::Prod) -> &'static str {
    per_type!(p, T, B, std::any::type_name::<T>())
}

/// Does the crate accept `s` as production `p`?
pub fn accepts(p: crate::rfc::Prod, s: &[u8]) -> bool {
    per_type!(p, T, B, T::from_bytes(s).is_ok())
}

/// Fail with a message unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !$c {
            return Err(format!($($arg)*));
        }
    };
}

/// Lossy rendering for messages.
pub fn show(s: &[u8]) -> String {
    if s.len() > 120 {
        format!("{}… ({} bytes)", s[..100].escape_ascii(), s.len())
    } else {
        format!("{}", s.escape_ascii())
    }
}

/// Serde support of a type, whether it has any or not: a type that lost it must be
/// reported by the check, not fail to compile here. `(&Probe::<T>::new()).get(d)`
/// picks `Has` if the type has the support and `Lacks` otherwise.
pub mod serde_probe {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    use std::marker::PhantomData;

    pub struct Probe<T>(PhantomData<T>);
    impl<T> Probe<T> {
        #[allow(clippy::new_without_default)]
        pub fn new() -> Self {
            Probe(PhantomData)
        }
    }
    pub trait HasDe<'de, T> {
        fn get<D: Deserializer<'de>>(&self, d: D) -> Result<T, D::Error>;
        fn put<D: Deserializer<'de>>(&self, d: D, place: &mut T) -> Result<(), D::Error>;
    }
    impl<'de, T: Deserialize<'de>> HasDe<'de, T> for Probe<T> {
        fn get<D: Deserializer<'de>>(&self, d: D) -> Result<T, D::Error> {
            T::deserialize(d)
        }
        fn put<D: Deserializer<'de>>(&self, d: D, place: &mut T) -> Result<(), D::Error> {
            T::deserialize_in_place(d, place)
        }
    }
    pub trait LacksDe<'de, T> {
        fn get<D: Deserializer<'de>>(&self, _: D) -> Result<T, D::Error> {
            Err(serde::de::Error::custom("the type does not implement Deserialize"))
        }
        fn put<D: Deserializer<'de>>(&self, _: D, _: &mut T) -> Result<(), D::Error> {
            Err(serde::de::Error::custom("the type does not implement Deserialize"))
        }
    }
    impl<T> LacksDe<'_, T> for &Probe<T> {}

    pub trait HasSer<T: ?Sized> {
        fn ser<S: Serializer>(&self, v: &T, s: S) -> Result<S::Ok, S::Error>;
    }
    impl<'a, T: Serialize + ?Sized> HasSer<T> for Probe<&'a T> {
        fn ser<S: Serializer>(&self, v: &T, s: S) -> Result<S::Ok, S::Error> {
            v.serialize(s)
        }
    }
    pub trait LacksSer<T: ?Sized> {
        fn ser<S: Serializer>(&self, _: &T, _: S) -> Result<S::Ok, S::Error> {
            Err(serde::ser::Error::custom("the type does not implement Serialize"))
        }
    }
    impl<T: ?Sized> LacksSer<T> for &Probe<&T> {}
}

/// Local stand-ins `Own`, `Ref` and `Out` for the owned type, a reference to the
/// borrowed one, and anything serialisable about them, with serde support forwarded.
#[macro_export]
macro_rules! serde_standins {
    ($T:ty, $B:ty) => {
        use $crate::types::serde_probe::*;
        #[derive(PartialEq, Eq, PartialOrd, Ord)]
        struct Own($B);
        struct Ref<'a>(&'a $T);
        struct OutRef<'a>(&'a $T);
        impl<'de> serde::Deserialize<'de> for Own {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                (&Probe::<$B>::new()).get(d).map(Own)
            }
            fn deserialize_in_place<D: serde::Deserializer<'de>>(d: D, place: &mut Self) -> Result<(), D::Error> {
                (&Probe::<$B>::new()).put(d, &mut place.0)
            }
        }
        impl<'de: 'a, 'a> serde::Deserialize<'de> for Ref<'a> {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                (&Probe::<&'de $T>::new()).get(d).map(|v| Ref(v))
            }
        }
        impl serde::Serialize for Own {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                (&Probe::<&$B>::new()).ser(&self.0, s)
            }
        }
        impl serde::Serialize for OutRef<'_> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                (&Probe::<&$T>::new()).ser(self.0, s)
            }
        }
    };
}
