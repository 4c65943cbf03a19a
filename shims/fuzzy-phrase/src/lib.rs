//! Stand-in for fuzzy-phrase: a set of phrases held in memory under the name of its directory.
//! The fuzzy searches answer with their own arguments, so that the checker sees what reached them.
pub mod glue;
