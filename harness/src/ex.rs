//! Script and Create under one roof for the monitors.

use crate::conv::*;
use crate::model::*;
use fuel_tx::field;
use fuel_tx::{Cacheable, Chargeable, Checkable, Create, Executable, IntoChecked, Script, Signable, Transaction, UniqueIdentifier};
use fuel_types::bytes::{Deserializable, SerializableVec, SizedBytes};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

pub trait Ex:
    Clone
    + Debug
    + PartialEq
    + Hash
    + Cacheable
    + Checkable
    + Chargeable
    + Executable
    + Signable
    + UniqueIdentifier
    + IntoChecked
    + SizedBytes
    + SerializableVec
    + Deserializable
    + field::GasPrice
    + field::GasLimit
    + field::Maturity
    + field::Inputs
    + field::Outputs
    + field::Witnesses
    + Into<Transaction>
    + serde::Serialize
    + serde::de::DeserializeOwned
    + 'static
{
    fn real(t: &Tx) -> Self;
    fn model(&self) -> Tx;
}
impl Ex for Script {
    fn real(t: &Tx) -> Self {
        match t {
            Tx::Script(s) => r_script(s),
            _ => panic!("kind"),
        }
    }
    fn model(&self) -> Tx {
        Tx::Script(m_script(self))
    }
}
impl Ex for Create {
    fn real(t: &Tx) -> Self {
        match t {
            Tx::Create(s) => r_create(s),
            _ => panic!("kind"),
        }
    }
    fn model(&self) -> Tx {
        Tx::Create(m_create(self))
    }
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// run `$f::<Script>` or `$f::<Create>` by the kind of the model
#[macro_export]
macro_rules! by_kind {
    ($t:expr, $f:ident ( $($a:expr),* )) => {
        match $t {
            $crate::model::Tx::Script(_) => $f::<fuel_tx::Script>($($a),*),
            $crate::model::Tx::Create(_) => $f::<fuel_tx::Create>($($a),*),
            $crate::model::Tx::Mint(_) => {}
        }
    };
}
