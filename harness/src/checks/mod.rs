pub mod clarity;
pub mod codecs;
pub mod decode;
pub mod equality;
pub mod payload;
pub mod rpc;
pub mod signing;
pub mod tx;
pub mod values;
pub mod wallet;

use crate::runner::Property;

/// Everything except C15, C22 and C26, whose binaries also compile macro uses.
pub fn all() -> Vec<Property> {
    vec![
        clarity::c01(),
        clarity::c02(),
        decode::c03(),
        tx::c04_property(),
        equality::c05(),
        clarity::c06(),
        values::c07(),
        values::c08(),
        codecs::c09(),
        codecs::c10(),
        codecs::c11(),
        codecs::c12(),
        codecs::c13(),
        tx::c14(),
        payload::c16(),
        signing::c17(),
        signing::c18(),
        signing::c19(),
        wallet::c20(),
        wallet::c21(),
        rpc::c23(),
        rpc::c24(),
        signing::c25(),
    ]
}
