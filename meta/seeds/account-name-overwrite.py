PKG="macros-tests"; PROPERTY="M01"
NEEDS="a name of more than 32 characters"
BREAKS="characters beyond the 32nd replace the first ones instead of being folded in, so names with different starts collide"
EDITS=[("macros/src/generate_accounts.rs","value[i % 32] ^= byte;","value[i % 32] = byte;")]
DEMO="""
mod acc {
	macros::generate_accounts!(AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAXY, BBAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAXY);
}

#[test]
fn long_names_differ() {
	assert_ne!(acc::AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAXY, acc::BBAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAXY);
	assert_eq!(acc::names().len(), 2);
}
"""
