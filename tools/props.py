"""Which behaviours of the specification decide which property.

Every divergence between the specification and the code is described by strings
  <category>|<action>|<detail>
category: accept  the code accepted what the specification refuses (detail: violated guard,
                  or guard@slot / kind@slot for a tampered variation, or "again")
          reject  the code refused what the specification accepts
          state   both accepted, and the resulting state / message differs (detail: component)
A divergence counts against a property if one of its patterns matches one of these strings.
"""
ADMIN = r"(SetPeer|SetOutLimit|SetInLimit|SetPaused|Register|SetWPeer|TransferOwn|TransferOwnOneStep|ClaimOwn|Initialize)"
VALUE = r"(toks\.bal|toks\.owner|toks\.other|toks|custody.*|supply|mint\.authority)"

# property -> (profiles in order of weight, patterns)
NTT = {
    "C01": (["Out", "In", "Mixed", "Rate", "TokOut", "TokIn", "Votes", "Pause"], [
        r"state\|.*\|" + VALUE, r"state\|(Transfer)\|outbox\.(wire|dec|to|chain|sender)", r"state\|Redeem\|inbox\.(amt|to)",
        r"state\|ReleaseOut\|post\.payload", r"state\|ReleaseIn\|.*", r"accept\|ReleaseIn\|.*",
        r"accept\|Transfer\|(balance|fee_token|mode|trim|wrong_account@(custody|mint|family|token_program|token_authority|from).*)",
        r"accept\|Redeem\|(untrim|wrong_account@(mint|family)|again|already_approved)"]),
    "C02": (["Out", "Rate", "Out", "Mixed", "In", "Rate", "TokOut", "In"], [
        r"state\|Transfer\|(toks.*|outbox.*|custody|supply)", r"accept\|Transfer\|trim", r"reject\|Transfer\|.*",
        r"accept\|Redeem\|untrim", r"state\|Redeem\|inbox.*", r"reject\|Redeem\|.*", r"state\|SetPeer\|peers.*",
        r"state\|ReleaseOut\|post\.payload", r"state\|ReleaseIn\|(toks.*|custody|supply)"]),
    "C03": (["In", "Vote", "In", "Mixed", "Pause", "Rate", "In", "Votes"], [
        r".*\|ReleaseIn\|.*", r"accept\|Redeem\|.*", r"state\|Redeem\|inbox.*", r"reject\|Redeem\|.*",
        r"accept\|Receive\|(msg_exists|again)"]),
    "C04": (["Out", "Pause", "Out", "Mixed", "Out", "Rate", "Boot", "Out"], [
        r".*\|ReleaseOut\|.*", r".*\|Mark\|.*", r"state\|Transfer\|(outbox.*|post.*|unexpected_account)",
        r"state\|.*\|(outbox.*|seqs|post\.unexpected)", r"accept\|Transfer\|(again|.*@outbox_item)"]),
    "C05": (["Rate", "Out", "Rate", "Mixed", "Rate", "Pause", "Boot", "Out"], [
        r"state\|.*\|outRL.*", r"state\|Transfer\|outbox\.(rel|released)", r"accept\|Transfer\|(rate|.*@outbox_rate_limit.*)",
        r"reject\|Transfer\|.*", r"accept\|ReleaseOut\|not_due", r"accept\|Mark\|.*", r"state\|Mark\|.*",
        r"reject\|ReleaseOut\|.*", r"accept\|Redeem\|.*@outbox_rate_limit.*"]),
    "C06": (["In", "Rate", "Rate", "Votes", "Mixed", "Rate", "In", "Pause"], [
        r"state\|.*\|inRL.*", r"state\|Redeem\|inbox.*", r"accept\|ReleaseIn\|not_due", r"reject\|Redeem\|.*",
        r"accept\|(Redeem|Transfer|SetInLimit)\|.*@(inbox_rate_limit|rate_limit).*", r"reject\|ReleaseIn\|.*"]),
    "C07": (["Rate", "In", "Out", "Rate", "Mixed", "Votes", "Rate", "Out"], [
        r"state\|(Transfer|Redeem)\|(inRL|outRL).*", r"accept\|(Redeem|Transfer)\|.*@(in|out)box_rate_limit.*",
        r"reject\|(Transfer|Redeem)\|.*"]),
    "C08": (["Rate", "Admin", "Rate", "Mixed", "Rate", "Boot", "Rate", "Pause"], [
        r".*\|(SetOutLimit|SetInLimit)\|.*", r"state\|SetPeer\|.*"]),
    "C09": (["Vote", "In", "Votes", "Mixed", "Vote", "In", "Pause", "Votes"], [
        r".*\|Redeem\|.*", r"accept\|ReleaseIn\|(not_approved|.*inbox_item.*)", r"state\|.*\|inbox.*",
        r"state\|.*\|cfg\.(threshold|enabled)"]),
    "C10": (["In", "Vote", "In", "Mixed", "Admin", "In", "Pause", "Votes"], [
        r".*\|Receive\|.*", r"accept\|Redeem\|.*", r"state\|.*\|msgs.*", r".*\|SetWPeer\|.*", r".*\|SetPeer\|.*",
        r"state\|Redeem\|.*", r"reject\|Redeem\|.*"]),
    "C11": (["Admin", "Boot", "Admin", "Mixed", "Boot", "Pause", "Admin", "Rate"], [
        r".*\|" + ADMIN + r"\|.*", r"state\|.*\|(cfg.*|peers.*|wpeers.*|xids.*|.*RL\.limit|upAuth.*)"]),
    "C12": (["Admin", "Pause", "Admin", "Mixed", "Admin", "Boot", "Admin", "Pause"], [
        r".*\|(TransferOwn|TransferOwnOneStep|ClaimOwn)\|.*", r"state\|.*\|(cfg\.owner|cfg\.pend|upAuth.*)",
        r"accept\|.*\|not_owner.*"]),
    "C13": (["Pause", "Mixed", "Pause", "Out", "In", "Pause", "Admin", "Votes"], [
        r"accept\|.*\|.*paused.*", r".*\|SetPaused\|.*", r"state\|.*\|cfg\.paused",
        r"reject\|(Redeem|SetOutLimit|TransferOwn|ClaimOwn|TransferOwnOneStep|BroadcastId|BroadcastPeer|SetPeer|SetInLimit|Register|SetWPeer)\|.*",
        r"reject\|(Transfer|ReleaseOut|Mark|Receive|ReleaseIn)\|.*"]),
    "C14": (["Out", "Mixed", "Out", "Rate", "Out", "Pause", "Out", "Admin"], [
        r"accept\|Transfer\|.*", r"state\|.*\|toks.*", r"state\|Transfer\|.*", r"reject\|Transfer\|.*"]),
    "C15": (["Out", "In", "Votes", "Mixed", "Out", "In", "Pause", "Admin"], [
        r"state\|.*\|post.*", r".*\|Receive\|.*", r"state\|Redeem\|inbox.*", r"state\|.*\|msgs.*", r"accept\|Redeem\|.*",
        r"reject\|Redeem\|.*"]),
    "C16": (["Out", "In", "Boot", "Mixed", "Rate", "TokOut", "TokIn", "Boot"], [
        r"accept\|.*\|.*mode.*", r"accept\|Initialize\|.*", r"state\|Initialize\|.*", r"state\|(Transfer|ReleaseIn)\|(" + VALUE + r")",
        r"state\|.*\|(cfg\.mode|supply|custody.*|mint\.authority)", r"reject\|(Transfer|ReleaseIn|Initialize)\|.*"]),
    "C17": (["Votes", "Admin", "Boot", "Mixed", "Out", "Vote", "Admin", "Boot"], [
        r".*\|Register\|.*", r"accept\|.*\|.*(disabled|unregistered|no_transceiver|too_many|@transceiver).*",
        r"state\|.*\|(xids.*|cfg\.enabled|cfg\.nextId|cfg\.threshold|outbox\.released|inbox\.votes)", r"reject\|(ReleaseOut|Mark)\|.*"]),
    "C18": (["TokOut", "TokIn", "Rate", "Mixed", "TokOut", "TokIn", "Out", "In"], [
        r"accept\|Transfer\|fee_token", r"state\|.*\|hooks", r"state\|Transfer\|(" + VALUE + r"|outbox.*)",
        r"state\|ReleaseIn\|(" + VALUE + ")", r"reject\|(Transfer|ReleaseIn)\|.*"]),
    "C22": (["Mixed", "Out", "In", "Admin", "Votes", "Boot", "Pause", "Rate"], [
        r"accept\|.*\|(unsigned|wrong_account).*",
        r"accept\|.*\|(not_owner|not_deployer|not_pending|not_authority|not_authorized|not_program|no_peer|no_wpeer|unregistered|"
        r"ntt_unregistered|chain_unregistered|fee_recipient|emitter|src_manager|rcpt_manager|session|mint_authority|set@who|set@prog)"]),
    "C23": (["Mixed", "In", "Out", "Pause", "Votes", "Admin", "Rate", "Boot"], [
        r"reject\|.*\|.*", r"state\|.*\|(outbox\.rel|inbox\.rel|inbox\.status|cfg\.paused|unexpected_account|lamports)",
        r"state\|ReleaseIn\|.*"]),
    "C24": (["Admin", "Pause", "Boot", "Mixed", "Admin", "Pause", "Boot", "Admin"], [
        r".*\|(BroadcastId|BroadcastPeer|InitLut)\|.*", r"state\|.*\|(lut.*|post\.unexpected|seqs)"]),
}

ASSUMPTIONS = [
    "the Solana programs are compiled natively and run in a small runtime (harness/src/svm.rs) built from solana-program-runtime 1.18 "
    "with the real SPL token, token-2022, associated-token, address-lookup-table, system and upgradeable-loader processors",
    "the Wormhole core bridge is a stand-in that posts messages and hands out sequence numbers (harness/src/bridge.rs); "
    "VAAs are taken to be genuine, i.e. guardian signatures are not modelled",
    "behaviours are sampled by the Quint simulator within the universes declared in the specification",
]

# properties that the libraries called directly (spec/lib.qnt) help to decide
LIB = {
    "C02": ("stepScale", r".*\|Lib(Rescale|Trim|RemoveDust)\|.*"),
    "C05": ("stepCap", r".*\|LibCapacity\|.*"),
    "C06": ("stepCap", r".*\|LibCapacity\|.*"),
    "C04": ("stepBits", r".*\|LibBit(Set|Get)\|.*"),
    "C09": ("stepBits", r".*\|LibBit.*\|.*"),
    "C17": ("stepBits", r".*\|LibBit.*\|.*"),
    "C15": ("stepWire", r".*\|Lib(Message|Info|Registration)\|.*"),
    "C24": ("stepInfo", r".*\|Lib(Info|Registration)\|.*"),
}

# laws of the arithmetic (spec/math_laws.qnt), proved for all 64-bit values by `quint verify` in the thorough tier
LAWS = {
    "C01": [("initTrim", "trimExact")], "C02": [("initTrim", "trimExact")],
    "C05": [("initRate", "capBounded"), ("initRate", "consumeExact")],
    "C06": [("initRate", "capBounded"), ("initRate", "consumeExact")],
    "C07": [("initRate", "refillExact")], "C08": [("initRate", "setLimitExact")],
}

QUICK = dict(samples=60, steps=30)
THOROUGH = dict(samples=900, steps=40)


QUOTER = {
    "C19": (["Q", "QPrice", "QFresh", "QPrice", "Q", "QPrice", "Q", "QBoot"], [
        r".*\|QRequest\|.*", r"state\|.*\|(request\.lamports|lamports\.payer|lamports\.other|RelayRequest.*)",
        r"state\|(QSol|QPrices|QParams|QRegNtt|QRegChain)\|.*", r"reject\|(QSol|QPrices|QParams|QRegNtt|QRegChain)\|.*"]),
    "C20": (["Q", "QBoot", "Q", "QBoot", "QPrice", "QBoot", "Q", "QBoot"], [
        r".*\|(QInit|QSetFee|QSetAsst|QRegChain|QRegNtt|QDeregNtt|QSol|QPrices|QParams|QClose)\|.*",
        r"state\|.*\|(Instance|RegisteredChain|RegisteredNtt)\..*", r"state\|.*\|lamports\.(fee_recipient|other)"]),
}
GOV = {"C21": (["Gov"] * 8, [r".*"])}


# suites other than the property's own
MORE = {"C22": {"quoter": ["Q", "QBoot", "QPrice"], "gov": ["Gov"]}}

INITS = {"QBoot": "initQBoot", "QFresh": "initQFresh", "Q": "initQ", "QPrice": "initQ", "Gov": "init",
         "Rate": "initAny", "Boot": "initBoot", "Vote": "initVotes", "TokOut": "initTok", "TokIn": "initTok"}
# kind -> (crate, binary, module, extra steps relative to the size)
KINDS = {"ntt": ("harness", "conform", "ntt_mbt", 0), "quoter": ("harness", "conform", "quoter_mbt", 10),
         "gov": ("harness-gov", "conform-gov", "gov_mbt", -15)}


def suite(kind, profiles, size, tier, seed):
    crate, binary, module, extra = KINDS[kind]
    runs, count = [], {}
    for p in profiles:
        k = count[p] = count.get(p, 0) + 1
        runs.append((module, INITS.get(p, "initPlain"), "step" + p, "propertiesHold", seed * 1000 + k, size["samples"],
                     size["steps"] + extra, None, 800 if tier == "quick" else 7200))
    return dict(crate=crate, bin=binary, cmd=kind, runs=runs)


def config(prop, tier, seed):
    size = QUICK if tier == "quick" else THOROUGH
    kind, table = next(((k, t) for k, t in (("ntt", NTT), ("quoter", QUOTER), ("gov", GOV)) if prop in t), (None, None))
    if kind is None:
        raise SystemExit(f"unknown property {prop}")
    profiles, pats = table[prop]
    suites = [suite(kind, profiles, size, tier, seed)]
    for k, ps in MORE.get(prop, {}).items():
        suites.append(suite(k, ps, size, tier, seed))
    if prop in LIB:
        step, pat = LIB[prop]
        pats = pats + [pat]
        n, samples = (1, 100) if tier == "quick" else (4, 1000)
        suites.append(dict(crate="harness", bin="conform-lib", cmd="lib", runs=[
            ("lib", "init", step, "propertiesHold", seed * 1000 + i, samples, 30, None, 800) for i in range(n)]))
    laws = LAWS.get(prop, []) if tier == "thorough" else []
    return dict(suites=suites, laws=laws, patterns=pats, level="exploration", assumptions=ASSUMPTIONS)
