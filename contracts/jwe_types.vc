The types of a JWE.

@module crate::jwe::envelope src/jwe/envelope.rs
@raw
use crate::serde_json::Value;
@type JWE
@type ProtectedHeader
@type Recipient
@type PerRecipientHeader
@type Algorithm
@type EncAlgorithm

