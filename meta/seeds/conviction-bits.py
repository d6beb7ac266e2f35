PKG="pallet-democracy"; PROPERTY="D12"
NEEDS="a vote byte with bits set that no conviction uses"
BREAKS="bytes that encode no vote decode into one, and do not encode back to themselves"
EDITS=[("pallets/democracy/src/vote.rs","""Conviction::try_from(b & 0b0111_1111)""","""Conviction::try_from(b & 0b0000_1111)""")]
DEMO="""
use super::*;
use parity_scale_codec::{Decode, Encode};

#[test]
fn decoded_votes_encode_back() {
	for b in 0..=255u8 {
		if let Ok(v) = Vote::decode(&mut &[b][..]) {
			assert_eq!(v.encode(), vec![b]);
		}
	}
}
"""
