#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements stay easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=state or [], observe_at=observe, hook_needed=None)))
HS="src/btc_validation/header_step.rs"; MD="src/btc_validation/median.rs"; DU="src/btc_validation/difficulty_update.rs"
BN="src/mp/bignat.rs"; PO="src/mp/poly.rs"; NU="src/util/num.rs"; BI="src/util/bit.rs"; GA="src/util/gadget.rs"; CO="src/util/convert.rs"; LA="src/util/lazy.rs"; LI="src/lib.rs"
zstate=[dict(name="z (16 field elements)", meaning="previous block hash; last 11 timestamps, oldest first; target; epoch start time; height mod 2016 of the block being processed; total work", where=HS)]

prop("C01","A header step accepts exactly the valid next headers",
"Given a chain state and an 80-byte header, synthesizing the step succeeds with every constraint satisfied exactly when the header is a valid successor of that state; every other header is refused (error, panic or unsatisfied constraint). Valid means: its previous-hash field is the state's block hash; its double SHA-256 hash, as a 256-bit little-endian integer, is below its target; its timestamp is above the median of the state's 11 timestamps; and its nBits is bit for bit the canonical compact encoding (positive, exponent byte 3 to 29, at most the difficulty-1 target) of the expected target, which is the state's target when the counter is not 0, and otherwise floor(old target * (last timestamp - epoch start) / 1209600) capped at the difficulty-1 target and truncated to compact precision, for a time span strictly between 302400 and 4838400 seconds.",
["inputs"],"every chain state (block hash below 2^224, 32-bit timestamps, target between 1 and the difficulty-1 target, counter 0..2015), and every 80-byte header",
"No unit test runs the header step at all; acceptance must be right for every state/header pair, including the rare ones (boundary timestamps, retarget blocks, non-canonical nBits, hash slightly above target).",
[HS,MD,DU],[("prev-hash equality, PoW comparison, median and retarget constraints",HS+" synthesize"),("comparison gadgets",MD),("retarget",DU)],["StepCircuit::synthesize result and constraint satisfaction"],zstate)

prop("C02","Accepted headers drive the documented state transition",
"After any accepted header the step outputs exactly the next state: the header's hash; the last ten timestamps shifted by one with the header's timestamp appended; the header's target; the epoch start (the header's timestamp when the counter was 0, otherwise unchanged); the counter plus one, wrapping from 2015 to 0; and the total work plus floor(difficulty-1 target / header target). Folding a chain of headers through the step therefore gives the same state as folding a reference client over the same chain.",
["histories","inputs"],"every chain (sequence) of valid headers from every initial state as in C01, including epoch boundaries",
"Nothing tests the step's outputs or runs two steps in sequence; epoch wrap-around is only visible after particular counters.",
[HS],[("z_out construction and constraints",HS+" synthesize, section 6")],["values of the 16 output numbers"],zstate)

prop("C03","No forged witness can pass an invalid header or a wrong next state",
"With the 16 state inputs and the 640 header bits fixed, the step's constraints have a satisfying assignment only if the header is a valid successor of the state, and then every satisfying assignment gives the documented next state. A dishonest prover choosing all other variables freely can therefore neither get an invalid header accepted nor output a wrong hash, timestamp, target, epoch start, counter or work.",
["inputs"],"every state as in C01, every header and every assignment of the remaining circuit variables (those of the SHA-256 gadget, which is not part of this repository, excepted)",
"Tests only run the honest witness generator; an unconstrained or weakly constrained variable never shows up there.",
[HS,MD,DU,BN],[("enforce calls linking header bits to packed values, comparisons and outputs",HS)],["the constraint system emitted by synthesize (R1CS)"],zstate)

prop("C04","The constraint system never depends on the witness",
"Every circuit gadget and the header step can be synthesized without any witness values, without panicking or failing, and emits then exactly the same variables and constraints as with a witness; two different witnesses with the same public parameters (limb counts and widths, bit widths, list lengths) give identical constraint systems too.",
["inputs","programs"],"every gadget, every parameter choice and every pair of witnesses (including none)",
"All tests synthesize once with a witness; parameter generation (Nova setup) synthesizes without one and folding needs all steps to share one shape.",
[HS,MD,DU,BN,NU,BI,GA,PO],[("witness closures that are only run when assigning","every alloc/enforce")],["list of allocations and constraints recorded from synthesize"])

prop("C05","Nova end to end: valid chains prove and verify, anything else does not",
"Public parameters can be generated from the header circuit; for a chain of valid headers every folding step succeeds and the recursive proof verifies for exactly that number of steps and initial state, returning the reference final state. Verification fails for another step count or initial state, and no step with an invalid header leads to a proof that verifies.",
["histories","inputs"],"every initial state as in C01, every chain of valid headers and every tampering with header, step count or initial state",
"The only end-to-end run is the example with one hard-coded block; no test creates a proof.",
[HS,"examples/validate_header.rs"],[("StepCircuit implementation",HS)],["RecursiveSNARK prove_step/verify"],zstate)

prop("C06","Comparison gadgets return the right bit",
"For every bit width n up to two below the field's capacity and all a, b < 2^n, the strict comparison returns the bit a < b, the non-strict comparison the bit a <= b, and for arbitrary field elements the equality gadget returns a = b; the emitted constraints are satisfied by the produced witness.",
["inputs"],"every width n, every pair (a, b), every prime field",
"Tests compare one pair (11, 14) at width 32; other widths (the step uses 224) and equal or reversed operands are not tested.",
[MD,BN],[("less_than / leq",MD),("equals",BN)],["value of the returned Boolean, constraint satisfaction"])

prop("C07","Comparison results cannot be forged",
"With a and b fixed (below 2^n for the order comparisons), the constraints emitted by the strict, non-strict and equality comparisons admit no assignment in which the returned bit differs from a < b, a <= b or a = b respectively.",
["inputs"],"every width, operands and assignment of the auxiliary variables",
"Honest-witness tests cannot see missing constraints.",
[MD,BN],[("range and selection constraints",MD),("equality constraints",BN)],["emitted R1CS"])

prop("C08","Median time past is computed and verified correctly",
"For every non-empty list of 32-bit timestamps the computed median is the element at index floor(n/2) of the sorted list. For every list of odd length at most 11 and every 32-bit candidate, verification yields true exactly when the candidate is the median, with all emitted constraints satisfied in both cases.",
["inputs"],"every timestamp list (duplicates included) in any order, every candidate value",
"One list is tested with its own median; wrong candidates are never offered, duplicates only once.",
[MD],[("compute_median_timestamp, verify_median_timestamp",MD)],["returned value / Boolean, constraint satisfaction"])

prop("C09","A wrong median cannot be passed off as verified",
"With the timestamps (odd length at most 11, 32-bit) and the candidate fixed, the constraints emitted by median verification admit no assignment in which the returned bit differs from the truth of 'candidate is the median'.",
["inputs"],"every timestamp list, candidate and assignment of the auxiliary variables",
"Honest-witness tests cannot see missing constraints.",
[MD],[("occurrence count and sign-sum constraints",MD)],["emitted R1CS"])

prop("C10","Retargeting computes floor(old target * time span / two weeks)",
"For every old target below the field's size and every time span strictly between 302400 and 4838400 seconds, the computed new target is exactly floor(old * span / 1209600) with all constraints satisfied; any other 32-bit span is refused. The verification variant accepts a new target exactly when it equals that value (256-bit targets given as two 128-bit halves).",
["inputs"],"every old target, span and claimed new target",
"Three fixed examples with one or two spans; no wrong target is ever offered, no boundary span.",
[DU],[("calculate_difficulty_update, verify_difficulty_update",DU)],["returned number, constraint satisfaction or refusal"])

prop("C11","A wrong new target cannot be forged",
"With the old target and time span fixed, the constraints emitted by the retarget computation admit no assignment in which the resulting number (read off its limbs) differs from floor(old * span / 1209600), and none at all when the span is not strictly between 302400 and 4838400 seconds. With old target, new target and span fixed, the verification variant admits an assignment only for the correct new target.",
["inputs"],"every old target, span, and assignment of the auxiliary variables",
"Honest-witness tests cannot see missing constraints or a remainder that is allowed to exceed the divisor.",
[DU,BN],[("constants, span comparisons, product and remainder constraints",DU)],["emitted R1CS"])

prop("C12","Every big number stays consistent with its limbs and metadata",
"After any sequence of big-number operations on canonical inputs, every reachable number has: value = sum of limb_i * 2^(width*i); each limb's linear combination evaluating to its recorded limb value; exactly as many limbs as stated; every limb at most the stated maximum word; value < 2^(stated bit size); and value >= 2^(stated minimum bits - 1) whenever a minimum is stated.",
["histories","inputs"],"every sequence of allocate, add, subtract, multiply, reduce, shift, scale, concatenate, truncate, group, extend, select, minimum, enforce-bits operations",
"Tests check satisfaction of isolated circuits; nothing inspects the metadata that later operations rely on for carry and quotient sizes.",
[BN],[("params.max_word/min_bits/n_limbs maintenance",BN)],["fields of the returned numbers"])

prop("C13","Big-number arithmetic computes the integer result",
"For all in-range operands and limb layouts: addition, multiplication, constant shift, constant scale, concatenation, truncation, grouping, bit recomposition, zero-extension and minimum give the integer result; subtraction gives it whenever it is non-negative and is refused otherwise; modular multiplication and reduction give quotient and remainder of integer division; the asserted modular product accepts the true remainder and returns the quotient and refuses any remainder that is not congruent; 'divides' accepts exactly when the divisor divides. Whenever an operation is accepted all its constraints are satisfied by the produced witness, and mismatched limb widths are refused.",
["inputs"],"every operand values, limb widths, limb counts (equal or different) whose products fit the field",
"About a dozen fixed modular products and carries; subtraction, minimum, divides, mult, concat, truncate, shift and scale are untested.",
[BN],[("add, sub, mult, mult_mod, red_mod, assert_product_mod, divides, min, shift, scale, concat, truncate_limbs, group_limbs, recompose, with_n_limbs",BN)],["value and limbs of results, constraint satisfaction"])

prop("C14","Big-number arithmetic constraints admit no false result",
"With canonical operands fixed, no assignment satisfies the constraints of subtraction, multiplication, modular multiplication, reduction, asserted modular product, divisibility or minimum unless the integer relation holds: difference = a - b >= 0 with limbs in range, product = a*b, a*b = quotient*modulus + remainder with both in limb range, the divisor divides, the minimum is the smaller operand.",
["inputs"],"every operands, limb layout and assignment of the auxiliary and result variables",
"Honest-witness tests cannot see a missing range check or carry constraint.",
[BN,PO,NU],[("verify_mult, equal_when_carried, assert_well_formed, alloc_product",BN)],["emitted R1CS"])

prop("C15","Big-number equality accepts exactly equal numbers",
"The limb-wise equality accepts two canonical numbers exactly when they are equal and the equality bit tells the truth; both carrying equalities (plain and regrouped) accept two numbers with limbs up to their stated maximum words, of equal or different limb counts, exactly when the integers they represent are equal. No assignment of auxiliary variables makes unequal numbers pass or flips the equality bit; mismatched limb widths are refused.",
["inputs"],"every pair of numbers, limb layouts, non-canonical limbs up to the stated maximum, and assignment of carries",
"Six small fixed carry cases in one field, all with the same maximum word and limb count.",
[BN],[("equal, is_equal, equal_when_carried, equal_when_carried_regroup",BN)],["constraint satisfaction, emitted R1CS"])

prop("C16","Range checks and bit decompositions are exact and unforgeable",
"Fits-in-n-bits, n-bit decomposition, limb well-formedness, number-to-limbs conversion, big-number decomposition, full-bits and minimum-bits enforcement accept exactly the values in range (below 2^n; top bit set; value at least 2^(m-1)); decomposed bits are the value's binary digits, low first, and converted limbs represent the same integer below the field modulus. No assignment of the auxiliary variables passes a value out of range or yields other bits or limbs.",
["inputs"],"every field element, width up to the field capacity, limb layout, and assignment of the auxiliary variables",
"Five fixed values; nothing checks rejection by a dishonest witness or widths near the field size.",
[NU,BN,BI],[("fits_in_bits, decompose, is_equal",NU),("from_num, assert_well_formed, decompose, enforce_full_bits, enforce_min_bits",BN)],["constraint satisfaction, emitted R1CS, returned bits"])

prop("C17","Number/field/limb conversions are exact inverses",
"Field element to natural number returns the canonical representative; natural to field returns the element with that representative and nothing when the number is negative or not below the modulus; machine-word conversions round-trip for every 64-bit word that fits the field; splitting a natural into limbs and joining them is the identity, every limb is below 2^width, and numbers too large for the layout are refused; evaluating a list of (possibly non-canonical) limbs gives sum limb_i * 2^(width*i).",
["inputs"],"every natural number, field element, word, width and limb count, in several prime fields",
"Each conversion is tested with the number 4.",
[CO,BN],[("f_to_nat, nat_to_f, usize_to_f, f_to_usize",CO),("nat_to_limbs, limbs_to_nat",BN)],["returned values"])

prop("C18","Bit and bit-vector operations behave like a list of Booleans",
"After any sequence of reverse, truncate, shift left/right, push, pop, insert, append, get and conversion from/to bits, a bit-vector's values and its linear combinations both equal the list of Booleans obtained by the same operations, and comparing it with a number through the circuit accepts exactly the number those bits denote (low bit first). Allocated bits are Boolean, negation and constants have the right value, and constraining a bit to a value accepts exactly that value.",
["histories","inputs"],"every operation sequence on every bit-vector",
"No bit-vector operation is tested.",
[BI,NU],[("Bitvector and Bit methods",BI),("Num::is_equal",NU)],["values, evaluated linear combinations, constraint satisfaction"])

prop("C19","Selection and wiring gadgets route the right value, unforgeably",
"Selection returns the first input when the bit is 0 and the second when it is 1; a selection tree over 2^k inputs returns the input indexed by the bits, first bit highest; a switch swaps exactly when the bit is 1; wire equality accepts exactly equal wires; exporting wires as numbers or public inputs exposes exactly the wire values in order. No assignment with the inputs and bits fixed makes any of these outputs differ, and selecting between numbers of different limb widths or from a wrong number of inputs is refused.",
["inputs"],"every pair/list of big numbers (different limb counts allowed), every selection bits, every assignment of output variables",
"No selection gadget is tested.",
[GA,BN],[("mux, mux_tree, switch, assert_equal, as_nums, inputize",GA),("BigNat mux",BN)],["values, constraint satisfaction, emitted R1CS, public inputs"])

prop("C20","Polynomial products, sums and evaluations are correct and bound",
"The product of two polynomials has exactly the convolution of their coefficients, the sum the coefficient-wise sum (lengths may differ), evaluation gives sum c_i * x^i, and coefficients and recorded values agree. With the factors fixed, the product's constraints admit no other coefficients.",
["inputs"],"every pair of coefficient lists (of different lengths) over several fields, every evaluation point, every assignment of product coefficients",
"The one test ignores its result and asserts nothing.",
[PO],[("alloc_product, sum, evaluate_at",PO)],["values, evaluated coefficients, constraint satisfaction, emitted R1CS"])

prop("C21","Lazy cells compute once and can be shared",
"Whatever the sequence of clones and (possibly overlapping) borrows, a lazy cell's closure runs at most once, only on the first borrow, every borrow on every clone yields the same value, and a cell made from a value always yields that value.",
["histories"],"every interleaving of clone, borrow, hold and drop on one cell",
"The cell is never tested directly; overlapping borrows do not occur in the tested paths.",
[LA,BN],[("LazyCell::borrow/force",LA)],["values seen by borrows, number of closure runs"])

prop("C22","Numbers keep their identity across representations",
"Converting between circuit numbers, allocated numbers and big numbers (and exporting a big number's limbs) preserves the value, and the constraints tie the new representation to the old: no assignment gives the converted variables another value. Two big numbers compare equal exactly when their value and layout agree.",
["inputs"],"every value, width and representation",
"Only one conversion is exercised, indirectly.",
[NU,BN],[("as_sapling_allocated_num, From<AllocatedNum>",NU),("as_limbs, inputize, from_limbs, PartialEq",BN)],["values, emitted R1CS, public inputs"])

prop("C23","Header lists and the starting state reach the prover unchanged",
"For every list of headers (ten big-endian 64-bit words each) the step circuits made from it are as many, in the same order, each with arity 16, and each hashes exactly the 80 bytes of its own header. The starting state that ships with the circuit is, in every field, the state of the Bitcoin main chain after block 123455 with total work counted from 0 (hash of block 123455, timestamps of blocks 123445 to 123455, their target, timestamp of block 122976, counter 480, work 0), so that the real header of block 123456 is accepted from it and leads to the documented next state, and from an altered header or state exactly what the validity rules allow is accepted.",
["inputs"],"every list of headers; every alteration of block 123456's header and of the starting state; every field",
"Neither function is called by any test.",
[HS],[("new_blocks, initial_z_i_scalars, arity",HS)],["circuits' hashed bits and outputs, initial state values"],zstate)

here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
