PKG="pallet-elections-phragmen"; PROPERTY="E05"
NEEDS="a member leaves whose account sorts before the prime while the replacement, if any, sorts behind the prime"
BREAKS="the prime is remembered by seat number instead of account, so somebody else becomes prime"
EDITS=[("pallets/elections-phragmen/src/lib.rs","""		let maybe_replacement = <Members<T>>::try_mutate""","""		let maybe_current_prime = T::ChangeMembers::get_prime();
		let prime_seat = maybe_current_prime.as_ref().and_then(|p| Self::members().iter().position(|m| m.who == *p));
		let maybe_replacement = <Members<T>>::try_mutate"""),
("pallets/elections-phragmen/src/lib.rs","""		let outgoing = &[who.clone()];
		let maybe_current_prime = T::ChangeMembers::get_prime();
""","""		let outgoing = &[who.clone()];
"""),
("pallets/elections-phragmen/src/lib.rs","""				T::ChangeMembers::set_prime(Some(current_prime));
			}
		}

		Ok(return_value)""","""				let last_seat = remaining_member_ids_sorted.len().saturating_sub(1);
				let seat = prime_seat.unwrap_or(last_seat).min(last_seat);
				T::ChangeMembers::set_prime(remaining_member_ids_sorted.get(seat).cloned());
			}
		}

		Ok(return_value)""")]
DEMO="""
#[test]
fn prime_stays_the_same_account() {
	ExtBuilder::default().desired_members(3).build_and_execute(|| {
		for who in [3, 4, 5] {
			assert_ok!(submit_candidacy(RuntimeOrigin::signed(who)));
		}
		assert_ok!(vote(RuntimeOrigin::signed(6), vec![4], 60));
		assert_ok!(vote(RuntimeOrigin::signed(5), vec![5], 40));
		assert_ok!(vote(RuntimeOrigin::signed(3), vec![3], 20));
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		assert_eq!(PRIME.with(|p| *p.borrow()), Some(4));
		assert_ok!(Elections::renounce_candidacy(RuntimeOrigin::signed(3), Renouncing::Member));
		assert_eq!(PRIME.with(|p| *p.borrow()), Some(4));
	});
}
"""
