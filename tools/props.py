HOST = ("Searches generated histories; a pass means no counterexample among the generated cases. "
        "Runs the library natively over the harness's own Stylus host (EVM call, revert, value, static and log semantics), which is trusted.")
PURE = ("Searches generated inputs; a pass means no counterexample among the generated cases. "
        "Runs the library natively against an independent reference, which is trusted.")
STATEFUL = "stateful property-based testing against a reference model"
PB = "property-based testing against a reference implementation"
H, I, C, F, P = "histories", "inputs", "configurations", "fault_sequences", "programs"
T = "contracts/src/token/"
U = "contracts/src/utils/"
K = "lib/crypto/src/"
TODO = None

PROPS = [
dict(id="C01", bin="erc20", title="ERC-20 balances, supply and allowances are exact",
 statement="After any history of mints, transfers, delegated transfers, approvals and burns, every balance, the total supply and every allowance equal what the history's successful calls imply, and the sum of balances is the total supply. A call succeeds exactly when no error condition (zero party, insufficient balance or allowance, supply overflow) applies, otherwise it reverts with the standard's typed error carrying the real figures and changes nothing; an unlimited allowance is never consumed and self-transfers change nothing. Every movement emits exactly one Transfer event and every approve exactly one Approval event, with the true parties and amount.",
 over=[H, I], quant="all histories of ERC-20 and burnable operations by any accounts (including zero, the token itself, the largest address) with any 256-bit amounts",
 why="The unit tests run one or two operations with small amounts from a single caller and mostly check one getter; they do not cover long histories, aliasing (from = to, spender = owner) or boundary amounts.",
 files=[T+"erc20/mod.rs", T+"erc20/extensions/burnable.rs", U+"math/storage/checked.rs", U+"math/storage/unchecked.rs"],
 mech=[("single update routine for mint, burn and transfer", T+"erc20/mod.rs:_update"), ("allowance spending", T+"erc20/mod.rs:_spend_allowance")],
 technique=STATEFUL, note=HOST),
dict(id="C02", bin="access", title="Pausing is an exclusive two-state switch and its guards are exact",
 statement="A pausable contract starts unpaused; pause succeeds only while unpaused, unpause only while paused, each flipping the reported state and emitting one event that names the caller, and otherwise reverting with EnforcedPause or ExpectedPause. An operation guarded by 'when not paused' runs exactly while the reported state is unpaused, and one guarded by 'when paused' exactly while it is paused. For any history of pause and unpause around token operations, no guarded operation changes any state while it is blocked.",
 over=[H], quant="all histories mixing pause, unpause and guarded token operations by any callers",
 why="The tests call each function once from a hand-set state; no history is explored and guards are never combined with token operations.",
 files=[U+"pausable.rs"], mech=[("guards and state flag", U+"pausable.rs")], technique=STATEFUL, note=HOST),
dict(id="C03", bin="erc20", title="Permit grants an allowance only for the owner's exact, fresh signature",
 statement="A permit succeeds exactly when the deadline has not passed and the signature is the named owner's over exactly this spender, value, current nonce, deadline, contract address and chain; it then sets the allowance to the value, consumes exactly one nonce of that owner and emits Approval. Any alteration of a field or of the signature, a replay, another owner's key, another contract or chain id, or an expired deadline is rejected and changes neither allowance nor nonce. The malleable twin of a valid signature is rejected.",
 over=[I, H], quant="all owners, spenders, values, deadlines, clocks, chain ids and single-field or signature alterations, in any order with transfers",
 why="There is no unit test of permit (only an end-to-end one that needs a node); forged, replayed and cross-domain signatures are an input space tests sample once.",
 files=[T+"erc20/extensions/permit.rs", U+"cryptography/eip712.rs", U+"cryptography/ecdsa.rs", U+"nonces.rs"],
 mech=[("struct hash, digest, recover, approve", T+"erc20/extensions/permit.rs:permit")], technique="model-based testing with mutated signatures", note=HOST),
dict(id="C04", bin="access", title="Nonces count up by one per owner and are never reusable",
 statement="Each owner's nonce starts at zero and every use returns the current value and raises it by exactly one, without affecting any other owner. A checked use succeeds exactly when the supplied nonce is the current one; otherwise it reverts with InvalidAccountNonce carrying the account and its current nonce and consumes nothing. Over any history no value is returned twice for one owner.",
 over=[H], quant="all interleavings of use, checked use with any supplied value and reads, over any owners",
 why="The tests use one owner and at most two uses.",
 files=[U+"nonces.rs"], mech=[("counter per owner", U+"nonces.rs")], technique=STATEFUL, note=HOST),
dict(id="C05", bin="erc20", title="Flash loans are repaid with fee, or leave no trace",
 statement="A flash loan succeeds exactly when it is for this token, within the maximum loan (all unminted supply headroom), the borrower's callback is called with the true initiator, token, amount, fee and data and returns the agreed magic value, and the borrower ends with balance and allowance for amount plus fee; then the borrower has paid exactly the fee, which is burned or credited to the fee receiver, and the allowance is reduced accordingly. Any other case reverts with the matching error and leaves balances, supply and allowances unchanged. The reported maximum and fee are zero or an error for foreign tokens.",
 over=[H, I, F], quant="all loan amounts, fees, fee receivers, token arguments, borrower behaviours (wrong magic value, revert, malformed answer, no code) and prior ledger states",
 why="The unit tests read the getters only; the loan itself runs only in node-based tests with one honest and a few fixed dishonest borrowers.",
 files=[T+"erc20/extensions/flash_mint.rs"], mech=[("mint, callback, spend allowance, burn", T+"erc20/extensions/flash_mint.rs:flash_loan")],
 technique="model-based testing with fault-injecting borrowers", note=HOST),
dict(id="C06", bin="erc20", title="ERC-4626 conversions round for the vault and never lose assets",
 statement="For any reachable vault state, conversions and previews equal the exact rational shares-to-assets formula with the virtual offset, rounded down for deposits, redemptions and conversions and up for mints and withdrawals; each deposit, mint, withdraw or redeem moves exactly the previewed amounts of asset and shares between the right parties, emits its event and respects the reported maximum. No sequence of operations gives a user more assets out than went in, plus donations, and a deposit followed by redemption never profits. Withdrawing for another owner needs and spends that owner's share allowance; a failing asset transfer makes the whole call revert.",
 over=[H, I, C, F], quant="all histories of vault operations, donations and share transfers, all decimals offsets, amounts up to 2^256-1, assets that fail or answer malformed data",
 why="The unit tests check single conversions on an empty vault with mocked assets; rounding direction and conservation depend on the whole history.",
 files=[T+"erc20/extensions/erc4626.rs", U+"math/alloy.rs", T+"erc20/utils/safe_erc20.rs"],
 mech=[("conversion with virtual shares", T+"erc20/extensions/erc4626.rs:_convert_to_shares"), ("asset pull before mint, burn before push", T+"erc20/extensions/erc4626.rs:_deposit")],
 technique=STATEFUL, note=HOST),
dict(id="C07", bin="erc20", title="Wrapped ERC-20 supply is fully backed by the underlying",
 statement="After any history, deposit pulls exactly the given amount of underlying from the caller and mints exactly that many wrapped tokens to the recipient, and withdraw burns exactly that many from the caller and sends the underlying to the recipient; either both legs happen or the call reverts. The contract's underlying balance is therefore never below the wrapped supply, recovery mints exactly the surplus, and the wrapper itself can be neither depositor nor recipient. A failing or malformed underlying transfer aborts the operation.",
 over=[H, F], quant="all histories of deposits, withdrawals, direct donations, recoveries and transfers, with underlying tokens that return true, false, nothing, garbage or revert",
 why="Unit tests do one deposit or withdrawal each with a well-behaved underlying.",
 files=[T+"erc20/extensions/wrapper.rs", T+"erc20/utils/safe_erc20.rs"], mech=[("deposit_for, withdraw_to, _recover", T+"erc20/extensions/wrapper.rs")],
 technique=STATEFUL, note=HOST),
dict(id="C08", bin="erc20", title="Safe ERC-20 operations succeed only if the token call really succeeded",
 statement="A safe transfer, transfer-from, allowance increase or decrease, or forced approval succeeds exactly when the token call succeeds and either returns nothing from an address holding code, or returns data that spells the boolean true; any revert, any other answer, or an address without code makes it revert with a typed error naming the token. The token is called with exactly the requested parties and amount. After a successful increase, decrease or forced approval the token's allowance is exactly the old value plus or minus the amount, or the forced value, also for tokens that require resetting to zero first; decreasing below zero reverts with the current and requested figures.",
 over=[I, F], quant="all token behaviours (return data of any length and content, revert, no code, zero-reset tokens), parties and amounts",
 why="The only tests are node-based and use five fixed mock tokens.",
 files=[T+"erc20/utils/safe_erc20.rs"], mech=[("low level call and answer check", T+"erc20/utils/safe_erc20.rs:call_optional_return")],
 technique="model-based testing with fault-injecting tokens", note=HOST),
dict(id="C09", bin="erc721", title="ERC-721 ownership, balances and approvals are exact",
 statement="After any history of mints, transfers, approvals, operator grants and burns, every token's owner, every balance, every single-token approval and operator flag equal what the successful calls imply, and each balance is the number of tokens owned. A transfer, approval or burn succeeds exactly when the caller is the owner, its operator or (for transfers and burns) the token's approved account, and the stated owner and recipient are valid; otherwise it reverts with the matching typed error and changes nothing. Every transfer or burn clears the token's approval, and each change emits exactly its event.",
 over=[H, I], quant="all histories of public and internal ERC-721 and burnable operations over any token ids and accounts",
 why="The tests drive one to three calls; authority depends on the whole grant, transfer and revoke history (stale approvals after transfer, re-mint after burn).",
 files=[T+"erc721/mod.rs", T+"erc721/extensions/burnable.rs"], mech=[("single update routine", T+"erc721/mod.rs:_update"), ("authorisation", T+"erc721/mod.rs:_check_authorized")],
 technique=STATEFUL, note=HOST),
dict(id="C10", bin="receivers", title="Safe transfers deliver to contracts only if the receiver accepts",
 statement="A safe ERC-721 or ERC-1155 transfer or mint to an address with code succeeds exactly when that contract's acceptance callback is called once with the true operator, previous owner, ids, amounts and data, after the balances have moved, and returns the acceptance magic value; to an address without code no callback is made. If the receiver reverts with data, that data is propagated; if it answers another value or nothing decodable, the call reverts with the invalid-receiver error; in both cases nothing changes. Single and batch ERC-1155 moves use their respective callbacks.",
 over=[I, F, H], quant="all receiver behaviours (magic value, wrong value, the other callback's value, short, empty or oversize answer, revert with and without data, panic-like revert), operators, payloads and token states",
 why="The unit tests only use externally owned accounts; receiver behaviour is tested against a node with a handful of fixed mock contracts.",
 files=[T+"erc721/mod.rs", T+"erc1155/mod.rs", T+"erc721/receiver.rs", T+"erc1155/receiver.rs"], mech=[("acceptance check", T+"erc721/mod.rs:_check_on_erc721_received"), ("acceptance check", T+"erc1155/mod.rs:_check_on_erc1155_received")],
 technique="model-based testing with fault-injecting receivers", note=HOST),
dict(id="C11", bin="erc721", title="ERC-721 enumeration lists exactly the existing tokens, once each",
 statement="After any history of mints, transfers (including to oneself) and burns, enumerating all tokens by index yields every existing token exactly once and nothing else, and enumerating an owner's tokens by index yields exactly that owner's tokens, once each. The reported total supply equals the number of existing tokens. An index at or beyond the count reverts with the out-of-bounds error carrying the owner (or zero) and index.",
 over=[H], quant="all histories of mints, transfers and burns over any token ids, including id zero and the largest id",
 why="Swap-and-pop bookkeeping depends on the order and position of removals; the tests remove from one or two positions.",
 files=[T+"erc721/extensions/enumerable.rs"], mech=[("swap-and-pop index bookkeeping", T+"erc721/extensions/enumerable.rs")],
 technique=STATEFUL, note=HOST),
dict(id="C12", bin="erc721", title="Consecutive ERC-721 batches own exactly their id range",
 statement="After any history of batch mints, single mints, transfers, approvals and burns, every token's owner and every balance equal those of a plain ERC-721 in which each batch had minted its ids one by one. Batches get contiguous ranges starting at the configured first id, emit one ConsecutiveTransfer with that range, and are limited to the maximum batch size, to non-zero recipients and to the representable ids (a batch that would exceed any limit is refused whole). Ids outside every batch and never minted do not exist.",
 over=[H, C], quant="all batch size sequences (including zero and the maximum), first ids and later operation histories",
 why="The tests use a few fixed batches and at most two later operations; ownership lookups depend on checkpoint search positions and burn marks.",
 files=[T+"erc721/extensions/consecutive.rs", U+"structs/checkpoints/mod.rs", U+"structs/bitmap.rs"], mech=[("checkpointed ownership and burn bitmap", T+"erc721/extensions/consecutive.rs:_owner_of")],
 technique=STATEFUL, note=HOST),
dict(id="C13", bin="erc721", title="Every wrapped ERC-721 token is backed by the same underlying token",
 statement="After any history, depositing pulls exactly the listed ids of the underlying from the caller and mints the same wrapped ids to the recipient, withdrawing burns wrapped ids the caller is authorised for and releases the same underlying ids, and sending an underlying token directly mints its wrapped twin to the account it came from, while the receipt callback is refused for any other token contract. Recovering an id mints its wrapped token to the given account only if the wrapper owns that underlying token and it is not wrapped yet, and moves no underlying token. Each operation takes effect for all ids or none. Every existing wrapped token's underlying is owned by the wrapper.",
 over=[H, F], quant="all histories of deposits, withdrawals, direct safe transfers, unsafe transfers followed by recovery, and wrapped transfers over any id lists including duplicates",
 why="Unit tests do single deposits and withdrawals with a mocked underlying.",
 files=[T+"erc721/extensions/wrapper.rs"], mech=[("deposit_for, withdraw_to, receiver hook, _recover", T+"erc721/extensions/wrapper.rs")], hook="Erc721Wrapper::_recover is private; ozverif_recover (cfg ozverif) exposes it",
 technique=STATEFUL, note=HOST),
dict(id="C14", bin="receivers", title="Metadata, token URIs and configured constants read back exactly",
 statement="Name, symbol, decimals, supply cap and contract-wide URI read back exactly as configured, for strings of any length. A token's URI is its own stored URI alone without a base, base plus stored URI when both are set, and otherwise base plus decimal id (ERC-721) or the contract-wide URI (ERC-1155); ERC-721 metadata of a non-existent token reverts with the non-existent-token error. Setting one token's URI affects only that token and emits the update event.",
 over=[I, H], quant="all strings (empty, at and around the 31/32-byte storage boundary, long, multi-byte), ids and histories of URI updates",
 why="Tests use a few short strings and one or two ids.",
 files=[T+"erc721/extensions/metadata.rs", T+"erc721/extensions/uri_storage.rs", T+"erc1155/extensions/metadata_uri.rs", T+"erc1155/extensions/uri_storage.rs", T+"erc20/extensions/metadata.rs", T+"erc20/extensions/capped.rs", U+"metadata.rs"], mech=[("URI composition", T+"erc721/extensions/uri_storage.rs:token_uri")],
 technique=STATEFUL, note=HOST),
dict(id="C15", bin="erc1155", title="ERC-1155 balances and operator approvals are exact",
 statement="After any history of single and batch mints, transfers and burns, every balance of every id and every operator flag equal what the successful calls imply, with batches applied entry by entry (duplicate ids included). A transfer or burn succeeds exactly when the caller is the holder or its operator, lists have equal length, parties are non-zero and each entry's balance suffices; otherwise it reverts with the matching typed error and no entry takes effect. Each call emits exactly one TransferSingle or TransferBatch with the true operator, parties, ids and amounts, and batch balance queries answer entry by entry.",
 over=[H, I], quant="all histories of single and batch operations over any ids (including duplicates), amounts, list lengths and accounts",
 why="The tests use fixed four-entry batches without duplicates and one or two calls.",
 files=[T+"erc1155/mod.rs", T+"erc1155/extensions/burnable.rs"], mech=[("single update routine", T+"erc1155/mod.rs:_update")],
 technique=STATEFUL, note=HOST),
dict(id="C16", bin="erc1155", title="ERC-1155 supply tracking equals the sum of balances",
 statement="After any history of single and batch mints, transfers and burns, each id's total supply equals the sum of all balances of that id, the overall supply equals the sum over ids, and an id is reported to exist exactly when its supply is positive. Transfers leave supplies unchanged. A mint that would overflow any per-id or overall supply fails and changes nothing.",
 over=[H, I], quant="all histories of single and batch operations, with duplicate ids and amounts up to 2^256-1",
 why="The tests check single mints and burns of small amounts.",
 files=[T+"erc1155/extensions/supply.rs"], mech=[("supply update after the balance update", T+"erc1155/extensions/supply.rs:_update")],
 technique=STATEFUL, note=HOST),
dict(id="C17", bin="access", title="Royalties follow the token's own setting, else the default, exactly",
 statement="For any sale price the reported royalty is floor(price x numerator / denominator), with the configured denominator, to the receiver of the token's own royalty if set, otherwise of the default royalty, otherwise zero to the zero address; it never exceeds the price, and the query fails when the product exceeds 256 bits. Setting is refused with the typed error exactly when the numerator exceeds the denominator or the receiver is zero; resetting or deleting restores the next level. One token's setting never affects another token or the default.",
 over=[H, I], quant="all histories of default and per-token royalty changes, prices, ids and fractions up to the denominator and beyond",
 why="The tests use one fraction, one price and short histories.",
 files=[T+"common/erc2981.rs"], mech=[("royalty lookup with fallback", T+"common/erc2981.rs:royalty_info")],
 technique=STATEFUL, note=HOST),
dict(id="C18", bin="access", title="Ownership moves only by the owner's consent (and acceptance in two-step)",
 statement="After any history the owner is exactly who the successful transfers and renunciations imply; owner-only operations succeed exactly for the current owner and otherwise revert with the unauthorized error naming the caller. One-step ownership transfer to the zero address is refused and renouncing leaves no owner for ever. In the two-step variant only the currently pending account can accept, starting a new transfer replaces it, and acceptance or renunciation clears it; each change emits its event with the old and new accounts.",
 over=[H], quant="all histories of transfers, acceptances, renunciations and guarded calls by any accounts",
 why="The tests run one or two calls per case; a stale pending owner or a leftover right shows only in longer histories.",
 files=["contracts/src/access/ownable.rs", "contracts/src/access/ownable_two_step.rs"], mech=[("owner guard", "contracts/src/access/ownable.rs:only_owner"), ("pending owner", "contracts/src/access/ownable_two_step.rs")],
 technique=STATEFUL, note=HOST),
dict(id="C19", bin="access", title="Roles are granted and revoked only by the role's admin",
 statement="After any history the members and admin of every role are exactly those the successful calls imply; grant and revoke succeed exactly for members of the role's current admin role, renounce exactly for the account itself with matching confirmation, and otherwise revert with the typed error naming the caller and the needed role. A role check passes exactly for current members. Events are emitted exactly when membership or an admin relation changes; repeated grants or revokes are silent no-ops.",
 over=[H], quant="all histories of grants, revokes, renunciations, admin changes and checks over any roles (including the default admin role and role cycles) and accounts",
 why="The tests use one role and one admin with two or three calls.",
 files=["contracts/src/access/control.rs"], mech=[("admin check and membership map", "contracts/src/access/control.rs")],
 technique=STATEFUL, note=HOST),
dict(id="C20", bin="multi", title="Assets leave an account only with that account's authority",
 statement="Across the ERC-20, ERC-721 and ERC-1155 tokens and their burnable, wrapper, vault, consecutive and supply extensions, whenever a successful call by any account lowers another account's balance or takes one of its tokens, the account had beforehand approved the caller (for at least that amount, that token, or as operator). An ERC-20 allowance falls by exactly the amount moved through it unless unlimited, and no call by a third party raises an allowance or an operator right granted by someone else. This holds for every history of public calls.",
 over=[H], quant="all histories of public calls by several accounts, with approvals granted, spent, revoked and inherited through transfers",
 why="A missing or stale authorisation check shows only for a particular caller and grant history; tests sample a few callers.",
 files=[T+"erc20/mod.rs", T+"erc721/mod.rs", T+"erc1155/mod.rs", T+"erc20/extensions/burnable.rs", T+"erc721/extensions/burnable.rs", T+"erc1155/extensions/burnable.rs"],
 mech=[("authorisation checks on the public entry points", T)], technique="model-free invariant checking over generated histories", note=HOST),
dict(id="C21", bin="access", title="Vesting releases exactly the linear schedule, for Ether and tokens",
 statement="At every time the vested amount is zero before the start, everything received so far from the end on, and floor(received so far x elapsed / duration) in between (the query fails when the product exceeds 256 bits); releasable is vested minus released. A release by anyone pays exactly the releasable amount to the current owner only, adds it to the released total of that asset and emits the event; a failed payment reverts entirely. Over any history of deposits, clock advances and releases of Ether and several tokens, released never exceeds vested and each asset is accounted separately.",
 over=[H, I, C, F], quant="all schedules (zero duration and extreme timestamps included), deposits at any time, clock advances, owner changes and payees or tokens that refuse",
 why="The tests check a fixed schedule without releases interleaved with deposits.",
 files=["contracts/src/finance/vesting_wallet.rs"], mech=[("schedule and release", "contracts/src/finance/vesting_wallet.rs")],
 technique=STATEFUL, note=HOST),
dict(id="C22", bin="access", title="ECDSA recovery returns the signer and refuses malleable or invalid input",
 statement="For any digest and key, recovering the low-s signature returns the signer's address, and a signature over any other digest or altered in any way never recovers to that signer, except for the malleable twin. Signatures with s in the upper half of the curve order are refused with the invalid-s error carrying s before anything is recovered. Signatures for which no key can be recovered (bad v, r or s out of range, r not on the curve) revert with the invalid-signature error.",
 over=[I], quant="all digests, keys, and alterations of v, r, s, including boundary values of s and r",
 why="The unit tests replace the precompile by a fixed mock, so recovery itself is only tested against a node with one signature.",
 files=[U+"cryptography/ecdsa.rs"], mech=[("low-s check, precompile call, zero check", U+"cryptography/ecdsa.rs:recover")],
 technique="property-based testing with an independent secp256k1 implementation", note=HOST),
dict(id="C23", bin="access", title="256-bit math helpers are exact, with the stated rounding and overflow",
 statement="Square root is the exact floor, average is the exact floor of the mean without overflow, and multiply-divide is the exact quotient of the full product in the requested rounding direction, failing exactly for a zero denominator or a result above 2^256-1.",
 over=[I], quant="all 256-bit operands (boundaries, perfect squares and their neighbours, products around 2^256)",
 why="Existing property tests cover sqrt and average over uniform operands only; multiply-divide is barely tested, and rounding errors hide at boundaries uniform sampling does not reach.",
 files=[U+"math/alloy.rs"], mech=[("mul_div, sqrt, average", U+"math/alloy.rs")],
 technique=PB, note=PURE),
dict(id="C24", bin="access", title="A bitmap stores each index's bit independently",
 statement="After any history of set, unset and set-to operations, reading any index returns the last value written to it, or false if none. An operation on one index never changes the value read at any other index. This holds for all 256-bit indices.",
 over=[H, I], quant="all histories over all 256-bit indices, including neighbours in one word, indices 256 apart and the largest index",
 why="The tests sample random single indices in fresh maps and never compare different indices.",
 files=[U+"structs/bitmap.rs"], mech=[("bucket and mask", U+"structs/bitmap.rs")], technique=STATEFUL, note=HOST),
dict(id="C25", bin="access", title="Checkpoint traces answer every lookup like an ordered map",
 statement="After any pushes with non-decreasing keys, the trace's length, entries and latest value equal an ordered map in which a repeated key overwrites the last value, and a push with a smaller key reverts with the unordered-insertion error and changes nothing. For every key the lower lookup returns the value of the first entry at or after it, and both upper lookups return the value of the last entry at or before it, or zero when there is none. This holds for each supported key and value width, up to the largest key and value.",
 over=[H, I], quant="all push sequences and lookup keys, trace lengths across the recent-lookup threshold and all supported widths",
 why="The tests use three to five entries; binary search and the square-root shortcut have length-dependent boundary cases.",
 files=[U+"structs/checkpoints/mod.rs", U+"structs/checkpoints/generic_size.rs"], mech=[("binary search with recent shortcut", U+"structs/checkpoints/mod.rs")],
 technique=STATEFUL, note=HOST),
dict(id="C26", bin="ifaceid", title="Interface identifiers follow ERC-165",
 statement="The interface identifier the library reports for any trait of contract functions is the XOR of the Solidity selectors of exactly its functions, using renamed selectors where given, and matches the published identifiers of the ERC standards. A contract answers true exactly for the identifiers of the interfaces it implements and for ERC-165 itself, and false for every other identifier, in particular 0xffffffff.",
 over=[I, P], quant="all 4-byte identifiers against every library contract, and generated interface definitions",
 why="The tests compare a few constants and a few queries; the answer is over all 2^32 identifiers and the macro over all trait definitions.",
 files=["contracts-proc/src/interface_id.rs", U+"introspection/erc165.rs", T+"erc721/mod.rs", T+"erc1155/mod.rs", T+"common/erc2981.rs", "contracts/src/access/control.rs"], mech=[("interface id macro", "contracts-proc/src/interface_id.rs"), ("supportsInterface", T)],
 technique=PB, note=HOST),
dict(id="C27", bin="crypto", title="Multi-limb integers agree with exact integer arithmetic",
 statement="For every limb count and operands, addition, subtraction, multiplication, doubling, halving, comparison, bitwise operations, remainder, bit access and bit length equal exact integer arithmetic reduced to the width, with carries and borrows reported exactly. Conversions from primitive integers and to and from little-endian bytes, big-endian bits, hexadecimal text and digit strings of any radix are exact; values that do not fit and malformed digits are rejected. Compile-time and run-time variants of an operation agree.",
 over=[I], quant="all limb widths and operand values, with limbs biased to all-zero, all-one and carry-propagating patterns",
 why="Carry and borrow propagation fails only for specific limb patterns that a uniform random sample practically never hits; existing tests cover few widths.",
 files=[K+"arithmetic/uint.rs", K+"arithmetic/limb.rs", K+"bits.rs", K+"const_helpers.rs"], mech=[("limb arithmetic", K+"arithmetic/uint.rs")],
 observe=["public API of the crypto crate"], technique=PB, note=PURE),
dict(id="C28", bin="crypto", title="Prime-field arithmetic is exact modular arithmetic",
 statement="For every provided field and all elements, addition, subtraction, negation, multiplication, squaring, doubling, exponentiation, inversion, division and sums of products equal exact integer arithmetic modulo the field's prime; zero has no inverse. Converting an integer below the modulus to a field element and back is the identity, every element has one canonical representation (equality, ordering and hashing follow the integer value), and conversions from primitive integers that fit the field's limbs, signed ones included, agree with reduction modulo the prime. Zeroizing an element leaves no trace of its value.",
 over=[I, C], quant="all elements of all provided fields, biased to 0, 1, p-1, p/2 and limb boundaries, and small or generic moduli with and without a spare bit",
 why="Missing final reductions in Montgomery arithmetic show only for rare operands; existing tests use one small field with uniform operands.",
 files=[K+"field/fp.rs", K+"field/mod.rs", K+"field/instance.rs"], mech=[("Montgomery multiplication and reduction", K+"field/fp.rs")],
 observe=["public API of the crypto crate"], technique=PB, note=PURE),
dict(id="C29", bin="crypto", title="Curve points form the group defined by the curve equation",
 statement="For every curve definition, point addition, doubling, negation, subtraction and scalar multiplication in affine and projective forms, in any mixture, equal the textbook chord-and-tangent law, including the identity, inverse and equal-point cases. Results stay on the curve, equality and conversions do not depend on the representation, and batch normalisation equals normalising each point. Scalar multiplication by the group order gives the identity and distributes over addition. Zeroizing a point clears every coordinate.",
 over=[I, P], quant="all point pairs (identity, equal, opposite, rescaled coordinates), scalars of any length, curves with zero and non-zero coefficient a",
 why="The unit tests check a handful of fixed points of one curve; exceptional cases depend on the representation and on operand relations.",
 files=[K+"curve/sw/projective.rs", K+"curve/sw/affine.rs", K+"curve/sw/mod.rs", K+"curve/helpers.rs", K+"curve/mod.rs"], mech=[("projective group law", K+"curve/sw/projective.rs")],
 observe=["public API of the crypto crate"], technique=PB, note=PURE),
dict(id="C30", bin="crypto", title="Poseidon2 equals its specification for every instance and input split",
 statement="For every provided instance and any input, the permutation and sponge output equal the Poseidon2 specification (full matrices, round constants, S-box, rate and capacity) evaluated with plain integer arithmetic. The result depends only on the sequence of absorbed elements, not on how they are split into calls, and squeezing more outputs extends the shorter output. Different inputs of the same length never collide in the cases explored, and absorbing after squeezing has begun is refused.",
 over=[I, C], quant="all provided instances and other parameters of every supported state size, input lengths across the rate boundary, element values and absorb/squeeze call splits",
 why="The tests compare one known vector per instance; sponge position handling depends on lengths and call splits.",
 files=[K+"poseidon2/mod.rs", K+"poseidon2/params.rs", K+"poseidon2/instance/"], mech=[("permutation with optimised matrix multiplication", K+"poseidon2/mod.rs")],
 observe=["public API of the crypto crate"], technique=PB, note=PURE),
dict(id="C31", bin="crypto", title="Merkle proofs verify exactly for leaves of the tree",
 statement="For any tree built with sorted pair hashing and any leaf, the path of siblings verifies against the root. Verification succeeds exactly when folding the leaf with the proof in order with the commutative pair hash gives the root, so changing, dropping, adding or reordering proof elements, or changing the leaf or root, is rejected. This holds for the default hash and for any supplied hash builder.",
 over=[I, P], quant="all trees, leaves, proof lengths (including the empty proof) and alterations, with several hash builders",
 why="The tests check one fixed tree and fixed bad proofs.",
 files=[K+"merkle.rs", K+"hash.rs"], mech=[("verify", K+"merkle.rs:verify")],
 observe=["public API of the crypto crate"], technique=PB, note=PURE),
dict(id="C32", bin="crypto", title="Merkle multi-proofs prove exactly subsets of the tree's leaves",
 statement="For any tree and any subset of its leaves, the generated multi-proof verifies. Verification succeeds exactly when the standard reconstruction of the given leaves, proof and flags yields the root and consumes everything; inconsistent lengths, missing leaves, and proofs that would read past the queue or the proof give the documented error, never a panic or an acceptance. Altered leaves, proofs, flags or roots, including ones crafted with internal nodes, are not accepted unless they are genuine proofs.",
 over=[I, P], quant="all trees, leaf subsets (empty and full included), and alterations or arbitrary combinations of leaves, proof, flags and root",
 why="The tests use a few fixed trees; acceptance depends on the interplay of three lists whose combinations tests cannot enumerate.",
 files=[K+"merkle.rs"], mech=[("verify_multi_proof", K+"merkle.rs")],
 observe=["public API of the crypto crate"], technique=PB, note=PURE),
dict(id="C33", bin="crypto", title="Hash helpers are the real Keccak-256 and order rules",
 statement="Hashing any byte sequence in any split of updates equals Keccak-256 of the concatenation. The pair hash is the hash of the two values in order, and the commutative pair hash is independent of order and equals the pair hash of the two values sorted. Hashing a value with a builder does not depend on earlier use of that builder.",
 over=[I], quant="all byte strings (lengths across the 136-byte block boundary), update splits and value pairs (equal, adjacent, differing in one byte)",
 why="The tests check the properties for random pairs only and one known vector; ordering must hold for every byte position.",
 files=[K+"hash.rs", K+"keccak.rs"], mech=[("hashers", K+"keccak.rs"), ("pair helpers", K+"hash.rs")],
 observe=["public API of the crypto crate"], technique=PB, note=PURE),
dict(id="C34", bin="access", title="EIP-712 digests bind name, version, chain, contract and message",
 statement="For every name, version, chain id and contract address, the domain separator and the typed-data digest equal the EIP-712 definition, computed at the current chain id. The reported domain data (fields mask, name, version, chain id, address, salt, extensions) is exactly what the separator was computed from. Digests for domains or messages differing in any one component differ.",
 over=[I, C], quant="all chain ids, contract addresses, struct hashes and a set of generated names and versions",
 why="The test checks one fixed domain.",
 files=[U+"cryptography/eip712.rs"], mech=[("domain separator and digest", U+"cryptography/eip712.rs")],
 technique=PB, note=HOST),
dict(id="C35", bin="multi", title="The event log alone reconstructs token state",
 statement="Replaying the Transfer, ERC-721 Approval, ApprovalForAll, TransferSingle, TransferBatch, ConsecutiveTransfer, role and ownership events of any history, in order, reconstructs exactly the balances, owners, supplies, token approvals, operator rights, role members and admins and the owner the contract reports. Reverted calls leave no event. Every state change an indexer relies on is therefore announced, once and truthfully.",
 over=[H], quant="all histories of public and internal operations over the token families and access contracts, including batches and burns",
 why="Unit tests do not look at emitted events at all.",
 files=[T+"erc20/mod.rs", T+"erc721/mod.rs", T+"erc1155/mod.rs", "contracts/src/access/control.rs", "contracts/src/access/ownable.rs", T+"erc721/extensions/consecutive.rs"], mech=[("event emission in the update routines", T)],
 technique="log-replay oracle over generated histories", note=HOST),
dict(id="C36", bin="wasmdiff", title="The WebAssembly build computes the same results as exact arithmetic",
 statement="Compiled for WebAssembly, the target contracts are deployed on, the cryptography library gives the same results as exact arithmetic and as the native build, for every input: limb, multi-limb integer and prime-field operations (which multiply by a separate, WebAssembly-only routine), curve group operations, Poseidon2, Keccak-256 and Merkle proof verification. It never traps where the native build returns a value.",
 over=[I, C], quant="all inputs of the integer, field, curve, hash and Merkle operations, in a 32-bit WebAssembly build",
 why="Unit tests run on the build host and never execute WebAssembly code; node-based tests run a few fixed inputs.",
 files=[K+"arithmetic/limb.rs", K+"arithmetic/uint.rs", K+"field/fp.rs", K+"curve/sw/projective.rs", K+"poseidon2/mod.rs", K+"merkle.rs", K+"keccak.rs"],
 mech=[("limb multiplication without 128-bit multiply", K+"arithmetic/limb.rs:widening_mul_wasm")], observe=["results of the public functions inside a WebAssembly module"],
 technique="differential property-based testing (WebAssembly module against native build and exact-integer reference)", note=PURE),
dict(id="C37", bin="multi", title="Re-entrant calls see and leave consistent state",
 statement="With re-entrant calls allowed (the reentrant feature), whatever contracts do from inside the callbacks and transfers that library contracts make to them - token receivers, flash-loan borrowers, Ether payments, and underlying tokens that call the sender before and the receiver after a transfer - the state visible inside every such callback and the state left afterwards are consistent: each ERC-20's total supply and each ERC-1155 id's supply equal the sum of the balances, ERC-721 balances equal the number of tokens owned, wrapped ERC-20 and ERC-721 tokens are fully backed by underlying the wrapper holds, a vault's share price never falls below its value at the start of the transaction, flash loans leave no additional supply, a vesting wallet pays no more than has vested and records what it paid, and accounts that take no part lose nothing.",
 over=[H, F], quant="all nestings of token, wrapper, vault, flash-loan, safe-transfer and release calls made from callbacks of the library's own calls, to a depth of several frames and over several transactions",
 why="The unit tests have no contract that calls back into the contract under test; the storage cache of the VM, which makes stale reads possible across a nested call, does not exist in the test environment.",
 files=[T+"erc20/extensions/erc4626.rs", T+"erc20/extensions/wrapper.rs", T+"erc20/extensions/flash_mint.rs", T+"erc20/utils/safe_erc20.rs", T+"erc721/mod.rs", T+"erc721/extensions/wrapper.rs", T+"erc1155/mod.rs", T+"erc1155/extensions/supply.rs", "contracts/src/finance/vesting_wallet.rs"],
 mech=[("effects before the external call, cache cleared around it", T+"erc20/utils/safe_erc20.rs:call_optional_return"), ("asset pull before mint, burn before push", T+"erc20/extensions/erc4626.rs:_deposit"), ("update before the acceptance check", T+"erc1155/mod.rs:_update_with_acceptance_check")],
 technique="stateful property-based testing of nested histories with adversarial callback plans and invariants checked in every callback", note=HOST),
dict(id="C38", bin="wasmrun", title="Contracts compiled to WebAssembly keep every contract guarantee",
 statement="Compiled to 32-bit WebAssembly, the form in which the contracts are deployed, the token, access-control, finance and utility contracts behave as their specifications say for every history: the same calls succeed or revert, with the same typed errors, return values, events and final state as in a 64-bit native build. Amounts, token ids, nonces, timestamps, lengths and indexes beyond 32 bits are handled in full, the contracts' code path, allocator and host-call bindings for WebAssembly included, and no call traps that the specification says succeeds.",
 over=[H, I, F], quant="all histories quantified over by the contract properties (C01-C25, C34, C35, C37), executed with the contracts inside a WebAssembly module",
 why="The unit tests run in a 64-bit native build with a mocked host; WebAssembly code runs only in node-based tests, with a few fixed inputs.",
 files=[T+"erc20/mod.rs", T+"erc20/extensions/erc4626.rs", T+"erc721/mod.rs", T+"erc721/extensions/consecutive.rs", T+"erc721/extensions/enumerable.rs", T+"erc1155/mod.rs", T+"erc1155/extensions/supply.rs", T+"erc20/utils/safe_erc20.rs", "contracts/src/finance/vesting_wallet.rs", U+"structs/checkpoints/mod.rs", U+"math/alloy.rs", U+"cryptography/ecdsa.rs"],
 mech=[("all contract code as compiled for wasm32", "contracts/src/lib.rs")], observe=["calls, return data, events and storage of contracts running inside a WebAssembly module"],
 technique="stateful property-based testing against reference models, inside a WebAssembly module", note=HOST.replace("Runs the library natively","Runs the library compiled to WebAssembly (in node)")),
]
