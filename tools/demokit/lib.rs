//! Crate root for the modules of /repo/src that can be compiled without askar-crypto.
//! It declares modules and repeats the re-exports of lib.rs, message/mod.rs and jwe/mod.rs
//! that they rely on. It holds no code of its own: everything else is read from /repo/src.
#![allow(dead_code, unused_imports)]

#[path = "/repo/src/algorithms.rs"]
pub mod algorithms;
#[path = "/repo/src/did/mod.rs"]
pub mod did;
#[path = "/repo/src/error.rs"]
pub mod error;
#[path = "/repo/src/secrets/mod.rs"]
pub mod secrets;

// jwe/mod.rs without encrypt, decrypt
mod jwe {
    #[path = "/repo/src/jwe/envelope.rs"]
    pub(crate) mod envelope;
    #[path = "/repo/src/jwe/parse.rs"]
    mod parse;

    pub(crate) use envelope::{Algorithm, EncAlgorithm};
    pub(crate) use parse::{parse, ParsedJWE};
}

// message/mod.rs without from_prior, pack_*, unpack
mod message {
    #[path = "/repo/src/message/attachment.rs"]
    mod attachment;
    #[path = "/repo/src/message/message.rs"]
    mod message;

    pub use attachment::{
        Attachment, AttachmentBuilder, AttachmentData, Base64AttachmentData, JsonAttachmentData,
        LinksAttachmentData,
    };
    pub use message::{Message, MessageBuilder};
}

// protocols/routing/mod.rs: only forward.rs
pub mod protocols {
    pub mod routing {
        #[path = "/repo/src/protocols/routing/forward.rs"]
        mod forward;

        pub use self::forward::ParsedForward;
    }
}

// utils/mod.rs without crypto, did
mod utils {
    #[path = "/repo/src/utils/serde.rs"]
    pub(crate) mod serde;
}

pub use message::{
    Attachment, AttachmentBuilder, AttachmentData, Base64AttachmentData, JsonAttachmentData,
    LinksAttachmentData, Message, MessageBuilder,
};

#[cfg(any(test, feature = "testvectors"))]
pub(crate) use crate as didcomm;

// test_vectors/mod.rs without from_prior
#[cfg(any(test, feature = "testvectors"))]
pub mod test_vectors {
    #[path = "/repo/src/test_vectors/common.rs"]
    mod common;
    #[path = "/repo/src/test_vectors/did_doc/mod.rs"]
    mod did_doc;
    #[path = "/repo/src/test_vectors/encrypted.rs"]
    mod encrypted;
    #[path = "/repo/src/test_vectors/from_prior_jwt.rs"]
    mod from_prior_jwt;
    #[path = "/repo/src/test_vectors/message.rs"]
    mod message;
    #[path = "/repo/src/test_vectors/plaintext.rs"]
    mod plaintext;
    #[path = "/repo/src/test_vectors/secrets/mod.rs"]
    mod secrets;
    #[path = "/repo/src/test_vectors/signed.rs"]
    mod signed;

    pub use common::*;
    pub use did_doc::*;
    pub use encrypted::*;
    pub use from_prior_jwt::*;
    pub use message::*;
    pub use plaintext::*;
    pub use secrets::*;
    pub use signed::*;
}

#[cfg(test)]
#[path = "demo.rs"]
mod vp_demo;
