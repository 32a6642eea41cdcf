#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table of claims below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TR = "TLA+ specification; TLC validation of traces of the real code"
EX = "TLA+ specification; TLC exhaustive small-constant check + conformance of the real code"
CLAIMS = {
 "C24": ("model_checking", "TLA+ language semantics; TLC-generated programs compiled through the real macros, results validated by TLC",
         "Every expression with up to two binary operators (and unary forms, casts, calls, groups), plus a seeded sample of larger ones, on boundary operands of 4 integer types (7 thorough); TLC checks each observed result against the specification's evaluation."),
 "C01": ("model_checking", TR, "Random histories of the real program (unmodified source, simulated runtime); TLC checks every recorded transition against the exact ledger specification."),
 "C03": ("model_checking", TR, "Random histories of the real program; TLC recomputes every account's health of all three types after every transition and checks the gates of every health-checked instruction."),
}
def trace(pid, what):
    CLAIMS[pid] = ("model_checking", TR, "Random and scripted histories of the real program (unmodified source, simulated runtime); " + what)
trace("C02", "TLC recomputes every index update (rates, fees, rescaled curve, averages) exactly and checks that nothing else moves indexes.")
trace("C09", "TLC recomputes matching, resting and cancelling of every order from the book before it and compares events and both sides of the book.")
trace("C11", "TLC checks after every step that events, order slots, resting lots, taker lots and open interest agree over all accounts, and recomputes every consumption.")
trace("C12", "TLC recomputes every funding update and every position's funding payment.")
trace("C13", "TLC recomputes settle limits, windows, one-shot and recurring pnl and every settlement.")
trace("C21", "TLC checks the structure of every transaction around health regions (permitted, top-level, closed, not nested), the health recorded at the start and demanded at the end, that health is not judged in between, and the exact outcome of sequence and health checks (values and ratios).")
trace("C22", "TLC checks that expired orders and out-of-range or invalid pegs never trade and that pruning removes exactly the expired ones.")
trace("C08", "TLC recomputes every flash loan settlement (vault differences, fees, deposits and borrows) and checks the begin/end pairing of every transaction.")
trace("C19", "TLC recomputes the booking of every order placed on, and every settlement from, the spot DEX, and the sums of potential amounts.")
trace("C20", "TLC recomputes every fee charged, collected and withdrawn: perp fees, loan fees, buyback, collateral fees.")
trace("C17", "TLC recomputes every stable price update and reset.")
trace("C06", "TLC recomputes the net borrow window of every bank and checks the borrow, net borrow and deposit limits at every borrow, deposit and trade.")
trace("C18", "TLC recomputes every conditional swap creation, start, trigger and close: price, caps, premium, fees, incentive, position closing.")
trace("C28", "TLC computes the configuration every listing (voted, without a vote, further banks, perp and spot markets) and every edit of a token, market or the group must leave, that nothing else moves, who may do it, and that the registry stays consistent.")
trace("C29", "TLC recomputes the account sheet, ratios, liquidation phases and market values from the recorded state, applies each trade the client helpers sized (and a slightly larger one) in the specification, and decides whether the demanded ratio is kept and the size is the largest.")
trace("C30", "the client library's and the crank's sources run against the accounts of the recorded histories (their RPC node and account cache are stand-ins serving them); TLC recomputes from the recorded state what the registry must list, which accounts a health computation must name and in which order, the health itself, the candidates for settlement, and the crank's next instruction.")
trace("C23", "TLC recomputes the weights in force (shifts, scaling) from the bank and the market and checks every edit of them.")
trace("C16", "TLC decides from the recorded oracles which price each instruction may use, and that instructions needing an unusable oracle fail; oracle accounts of every type with random contents are read by the real parser and compared with OracleUnit.tla.")
trace("C14", "TLC checks after every instruction that slots are unique, that every use count equals the number of perp markets, spot markets and conditional swaps relying on the token, that nothing in use loses its slot and slots are given up only when empty, and that creating, resizing, migrating and closing accounts keep exactly what they must.")
trace("C15", "operations that would succeed are repeated with another signer, a missing signature, or an account exchanged for one of another token, market, user or group; TLC decides from the roles and ownership recorded whether that may succeed.")
trace("C07", "operations that would succeed are repeated with their instruction disabled, an account frozen, or a token or market in reduce-only mode, and forced closings and withdrawals are tried in and out of those modes; TLC decides from the recorded modes and positions what may succeed, what must be refused as such, and recomputes every forced closing.")
trace("C04", "TLC recomputes every liquidation step exactly (tokens, perp base with overshoot and takeover, reasons to refuse) from the recorded banks, markets and prices, and decides from the recorded health when an account may be marked, liquidated and released.")
trace("C05", "TLC recomputes every token bankruptcy and negative perp pnl (insurance spent, debts written off, deposit index or perp funding socialized) exactly, and checks that nothing else moves the insurance fund or the deposit index down.")
CLAIMS["C10"] = ("model_checking", EX, "Every short insert/remove/expire/evict history over prefix-sharing keys is generated by TLC (which also checks the model) and replayed on the real book side; seeded long histories up to and beyond capacity; and the stored books of recorded program histories, with full sides. TLC compares contents, order, lookups, expiry, eviction, capacity and queries.")
CLAIMS["C25"] = ("model_checking", EX, "Every call on a family of small token ledgers (accounts, authorities, signers, bumps, amounts) is generated by TLC, run on the real program, and the outcome compared with the specification; plus seeded random ledgers with boundary amounts.")
CLAIMS["C26"] = ("model_checking", "TLA+ specification; TLC-planned and random histories run on the real service code, messages validated by TLC", "Every short history of queue snapshots over two forks (planned by TLC, with its own check that folding updates gives the queue) and random long ones are delivered to the real service code; TLC follows the history and compares every message.")
CLAIMS["C27"] = ("model_checking", "TLA+ specification; TLC-planned and random histories run on the real service code, messages validated by TLC", "Short histories of book and oracle snapshots over two forks (planned by TLC) and random ones are delivered to the real service code; TLC follows the history, folds the published updates and compares them with the books.")
for i, u in {"C03": "health of accounts with random contents", "C11": "the event queue and order slots", "C12": "funding and positions", "C13": "settle limits and fees", "C14": "the account's slots", "C17": "the stable price model",
             "C18": "prices and amounts of conditional swaps", "C20": "fees of positions", "C01": "bank balances", "C02": "interest", "C06": "limits", "C23": "weights"}.items():
    lv, tech, note = CLAIMS[i]
    CLAIMS[i] = (lv, tech, note + " The same operators judge observations of single functions on random states: " + u + ".")
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMS:
        lv, tech, note = CLAIMS[i]
        m["checks"].append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough",
                            "technique": tech, "level": lv, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": "Not yet covered: its specification module is still being built."})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
