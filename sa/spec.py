"""The properties: statement, scope, anchors, how each is decided.  tools/gen.py writes properties.jsonl and
MANIFEST.json from this file; sa/describe.py copies `rule` into the evidence."""

CONV = "contracts/converter/converter.py"
NET = "contracts/network/network.py"
IRC = "contracts/irc_token/irc_token.py"
FLEX = "contracts/flexible_token/flexible_token.py"
ICX = "contracts/icx_token/icx_token.py"
REG = "contracts/score_registry/score_registry.py"
OWN = "contracts/utility/owned.py"
MAN = "contracts/utility/managed.py"
HOLD = "contracts/utility/token_holder.py"
CTRL = "contracts/utility/flexible_token_controller.py"
UTIL = "contracts/utility/utils.py"
PROXY = "contracts/utility/proxy_score.py"
STORE = "contracts/utility/storage.py"
FORM = "contracts/formula/fixed_map_formula.py"
BUILD = "build.py"
BLD = "contract_generator/builder.py"
WRT = "contract_generator/writer.py"
EXE = "contract_generator/config.json"

P = {}


def prop(pid, title, statement, over, text, why, files, mech, technique, rule, note=""):
    P[pid] = dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, rule=rule, note=note)


T_PATH = "path-sensitive abstract interpretation of the source (trace partitioning, effect and guard analysis)"

prop("C01", "Only the owner (or manager, where documented) can administer a contract",
     "An administrative operation (ownership or management hand-over, issuing, switching transfers, conversions or "
     "connector purchases, adding or updating connectors, setting the fee, changing, restoring or locking the "
     "registry, withdrawing tokens, registering scores or ICX tokens, and commands forwarded to the governed token) "
     "takes effect only when the caller holds the documented role (owner; owner or manager for management hand-over, fee, conversion "
     "switch, registry lock and restore; anybody for a registry update while it is unlocked; the holder for burning own tokens), "
     "and each documented role alone suffices. A forwarded command reaches exactly the governed token with the caller's arguments. "
     "Operations open to everybody change no configuration and forward no administrative command.",
     ["inputs", "histories"], "every caller, argument and contract state, in every contract",
     "Tests try one stranger per operation against a mocked contract; the guarantee is over every caller and state and over all "
     "entry points, including ones that should not be administrative at all.",
     [OWN, MAN, HOLD, CTRL, CONV, FLEX, NET, REG],
     [("owner guard", OWN + " Owned.require_owner / owner_only"), ("manager guard", MAN + " Managed"),
      ("token commands", CTRL + " FlexibleTokenController")], T_PATH,
     "role-guard: every successful path of an administrative entry point that has an effect carries the fact that the caller "
     "equals the owner (manager, ...) location; role-accepted: for each role there is a successful path needing only it; "
     "config-untouched / no-open-command: effects of every other entry point stay inside balances and conversion state; "
     "forwarded-command: exactly one call to the token with the same arguments")

prop("C02", "Ownership moves only by nomination and acceptance",
     "The deployer is the first owner; afterwards the owner changes only when the account the current owner "
     "nominated accepts, and until then the current owner keeps the role. Only the owner can nominate, never itself; a new nomination replaces the old one; accepting makes the caller owner, "
     "clears the nomination and logs the previous and the new owner. No other operation, an upgrade included, changes the owner or the nomination.",
     ["inputs", "histories"], "every history of calls by any accounts, for every owned contract",
     "Tests walk one nomination and one acceptance; that nothing else can move ownership quantifies over all operations and histories.",
     [OWN], [("two-step hand-over", OWN + " transferOwnerShip / acceptOwnerShip")], T_PATH,
     "propose/accept: exact acceptance conditions (both directions); *-effect: exact post-state of the two locations and nothing "
     "else; accept-event; sole-writers: no other entry point writes the two locations; initial-holder")

prop("C03", "Management moves only by nomination and acceptance",
     "The converter's deployer is its first manager; afterwards the manager changes only when the account nominated by "
     "the owner or the current manager accepts. Nominating the current manager is refused; accepting makes the caller manager, clears the "
     "nomination and logs the change. No other operation changes the manager or the nomination.",
     ["inputs", "histories"], "every history of calls by any accounts",
     "Tests walk one hand-over with mocks and missed that the converter never initialised its manager.",
     [MAN, CONV], [("two-step hand-over", MAN + " transferManagement / acceptManagement"), ("initial manager", CONV + " Converter.on_install")],
     T_PATH, "as C02, for the manager locations of the converter")

prop("C04", "Token balances always add up to the total supply",
     "In every token contract the sum of all balances equals the reported total supply after installation and after "
     "every operation, and also at each moment the token calls another contract, so that a re-entrant caller sees consistent books.",
     ["inputs", "histories"], "every operation sequence, all amounts, senders and recipients including sender = recipient and re-entrant ones",
     "Tests check a few transfers between distinct accounts; aliasing (self transfers) and re-entrancy are not sampled.",
     [IRC, FLEX, ICX], [("ledger updates", IRC + " IRCToken._transfer"), ("mint/burn", FLEX + " issue/destroy"), ("deposit/withdraw", ICX)],
     T_PATH, "balanced-books: for every path and every segment between external calls, the symbolic sum of balance deltas minus "
     "the supply delta normalises to 0; distinct-slots")

prop("C05", "No overdraft: spends are accepted exactly when covered",
     "No balance and no supply ever becomes negative: a transfer, burn or withdrawal is accepted only for a non-negative (burn, issue and "
     "withdrawal: positive) amount covered by the debited account's balance. Conversely a request that meets the stated conditions (coverage, sign, valid recipient, "
     "transfer switch, authority) is never refused.",
     ["inputs", "histories"], "every amount, holder, recipient and ledger state",
     "Boundary amounts (exactly the balance, zero, negative, one more) over all states are not enumerable by tests.",
     [IRC, FLEX, ICX], [("coverage checks", IRC + " _transfer"), ("burn check", FLEX + " destroy"), ("withdraw check", ICX + " withdrawTo")],
     T_PATH, "never-negative: each written balance/supply is provably >= 0 from the path facts; covered / covered-exact: success paths imply the "
     "conditions and failing paths refute one of them")

prop("C06", "Balances change only by authorised operations and exactly by the amount",
     "A transfer debits only its caller and credits only the recipient by the stated value; issuing (owner only) credits only the recipient; burning "
     "(owner or the holder itself) debits only the holder; deposits and withdrawals touch only the caller. "
     "Each changes the total supply by exactly its effect, and no other operation changes any balance or the supply.",
     ["inputs", "histories"], "all callers, amounts and aliasing of accounts, all entry points of all three token kinds",
     "That no other balance moves, for any entry point and any aliasing, is a frame condition tests cannot cover.",
     [IRC, FLEX, ICX], [("transfer", IRC + " _transfer"), ("mint/burn", FLEX)], T_PATH,
     "exact-balances: merged balance deltas per holder equal the specified ones on every path; exact-supply; mint-burn-authority")

prop("C07", "The ICX token is backed one to one by ICX",
     "Every ICX sent to the ICX token is credited to its sender as the same amount of tokens, and withdrawing tokens pays exactly that amount of "
     "ICX to the requested recipient after the tokens were burnt, or fails as a whole. The supply therefore always equals the ICX held; only the documented deposit and "
     "conversion operations accept ICX, and no other contract keeps ICX it receives.",
     ["inputs", "histories", "fault_sequences"], "all amounts, recipients (re-entrant contracts included), failing payments",
     "Tests use a mocked ICX transfer; failing payments, re-entrancy during the payment and stray payable entry points are not exercised.",
     [ICX, NET], [("deposit/withdraw", ICX + " deposit / withdrawTo"), ("forwarding", NET + " convertFor")], T_PATH,
     "payable-set; backing: supply delta equals received minus paid ICX on every path; withdraw-pays; debit-before-pay; icx-failure; "
     "deposit-accepted/credited; icx-passes-through for all other contracts")

prop("C08", "Contract recipients are notified after they are credited",
     "A transfer to a contract makes exactly one token-receipt notification to that contract, carrying the sender, the value and "
     "the attached data (a fixed placeholder when there is none), after both balances are final; the recipient can veto it. "
     "A transfer to an ordinary account calls nobody, and no other operation sends such notifications.",
     ["inputs", "histories"], "all recipients, values, data and recipient behaviour",
     "Tests mock the notification; order relative to the ledger update matters only for re-entrant recipients.",
     [IRC, FLEX, ICX, CONV, NET], [("notification", IRC + " _transfer"), ("receivers", CONV + " tokenFallback; " + NET + " tokenFallback")],
     T_PATH, "notify, notify-arguments, notify-after-credit, no-stray-call on every path of every token entry point; receiver: "
     "converter and network offer the notification interface")

prop("C09", "The transfer switch stops transfers and only transfers",
     "While the flexible token's owner has disabled transfers every transfer is refused, and otherwise no transfer is refused because of the switch; issuing and "
     "burning do not depend on it. Only the owner sets the switch, to exactly the requested state, and transfers start enabled. The ICX token "
     "additionally refuses transfers to itself.",
     ["inputs", "histories"], "all states of the switch, callers and transfer requests",
     "Tests set the switch once; that nothing else changes it or depends on it is a universal claim.",
     [FLEX, ICX], [("switch", FLEX + " disableTransfer / transfer"), ("self transfer", ICX + " transfer")], T_PATH,
     "transfer-gated (+ exact), switch-authority, switch-effect, switch-scope (no path fact of issue/destroy mentions it), switch-sole-writer, switch-initial, icx-not-to-self")

prop("C10", "Tokens implement the IRC-2 interface and log every movement",
     "Every token offers the standard read-only name, symbol, decimals, total supply and balance queries, which never fail, report distinct stored "
     "values and have the standard signatures, and the standard transfer operation with optional data. Every transfer, issue, burn and deposit logs exactly one "
     "Transfer event with the true parties (the token contract standing for creation and destruction), amount and data; no other operation does.",
     ["inputs", "histories", "programs"], "all token contracts, all operations and arguments",
     "Tests check one event per operation with mocks; wallets rely on the event stream being complete and exact for every path.",
     [IRC, FLEX, ICX, "contracts/interfaces/abc_irc_token.py"], [("interface", IRC), ("events", IRC + " Transfer")], T_PATH,
     "signature, getter-total, getter-slots, getter-reports-state, transfer-event (count and argument terms on every path), transfer-event-shape, no-false-transfer-event, instantiable")

prop("C11", "Audit events describe exactly what happened",
     "Issuance/destruction, token creation, fee, conversion switch, score address and conversion events are logged exactly when the change happens, with the true amounts, parties, previous and new values. "
     "A conversion logs one conversion record (source, target, trader, amount in, amount out, fee = gross minus paid) and, per connector involved, one price "
     "record with the supply, connector balance and weight after the conversion. Event layouts (indexed fields, parameter order) stay as documented.",
     ["inputs", "histories"], "all operations, paths and amounts",
     "Tests compare one event per scenario against mocks and cannot show absence of wrong or missing events on other paths.",
     [CONV, FLEX, ICX, REG, MAN, OWN], [("conversion events", CONV + " Conversion / PriceDataUpdate"), ("supply events", FLEX + " Issuance/Destruction")], T_PATH,
     "supply-event, install-event, fee-event, switch-event, conversion-event, price-event, address-event, event-shape, no-false-event on every path")

prop("C12", "Conversions are admitted exactly under the published conditions",
     "A converter executes a conversion only for tokens sent through the registered conversion network, for a positive amount and positive minimum return, while "
     "conversions are enabled and the converter controls its token, between two different known tokens whose connectors are set and open in the direction used. "
     "A well-formed request that meets these conditions and whose price and depletion limits hold is never refused; there is no other way to make the converter mint or burn.",
     ["inputs", "histories"], "all requests, senders, connector tables and switch states",
     "Each condition is tested alone at best; combinations, and acceptance in every other case, are not.",
     [CONV], [("admission", CONV + " tokenFallback / _convert / _buy / _sell / _convert_cross_connector")], T_PATH,
     "admission: each condition is an established fact on every executing path; admission-exact: each refusing path refutes a condition, is malformed, or violates a price condition; sole-conversion-entry")

prop("C13", "The trader's minimum return is honoured",
     "A conversion pays the trader at least the requested minimum or is undone completely. The amount checked, the amount paid or minted to the trader and the "
     "amount logged are the same; sold tokens are burnt in exactly the amount received, before the trader is paid, and nothing else is paid out. The network hands the trader's minimum to the last conversion of a path.",
     ["inputs", "histories"], "all amounts, prices, connector kinds and minimum returns",
     "Rounding and fee make checked and paid amounts easy to separate on paths tests do not sample.",
     [CONV, NET], [("minimum check", CONV + " _buy/_sell/_convert_cross_connector"), ("last hop", NET + " _convert_by_path")], T_PATH,
     "payout: the external calls of an executing path are exactly the specified ones; burn-first: the burn precedes the pay-out; min-return: paid - minimum >= 0 follows from the path facts; logged-return; network-minimum: the last hop's request carries at least the trader's minimum")

prop("C14", "Quotes equal execution",
     "What the converter quotes for a conversion in a given state is what executing it at once in that state pays, and the quoted fee is the fee logged, for buying, selling and "
     "cross-connector conversions, with actual or virtual balances; every executable conversion can be quoted, and none between equal or unknown tokens.",
     ["inputs", "histories"], "all states and amounts, virtual and actual connector balances",
     "Tests compare quotes with constants, not with execution in the same state; this check found the deposit subtracted from virtual balances.",
     [CONV], [("quote", CONV + " getReturn / getPurchaseReturn / getSaleReturn / getCrossConnectorReturn")], T_PATH,
     "quote: the getter is interpreted under the pre-state facts of each executing path and its result term, with the deposit accounted, equals the pay-out term")

prop("C15", "A conversion never drains a connector, except redeeming everything",
     "Paying out connector tokens leaves a positive connector balance, except that selling the entire supply may take exactly the whole balance, which stays possible.",
     ["inputs", "histories"], "all amounts, balances (virtual and actual), weights and fees",
     "Boundary cases of price results against balances are not sampled.",
     [CONV], [("depletion check", CONV + " _sell / _convert_cross_connector")], T_PATH,
     "not-depleted: pay-out < connector balance before the conversion follows from path facts, or pay-out = balance and amount = supply; full-redemption: such a path exists")

prop("C16", "Virtual balances follow conversions exactly",
     "For a connector with virtual balance every conversion adds exactly the tokens received and subtracts exactly the tokens paid, before tokens are paid out, and never below zero; other "
     "connectors' virtual balances and all other state are left alone. Outside conversions only the owner's connector operations set it. The reported connector balance is the virtual balance when enabled and the converter's actual holdings otherwise.",
     ["inputs", "histories"], "all conversions and connector configurations",
     "The frame condition and exactness over both connectors of all conversion kinds are not covered by sampled amounts.",
     [CONV], [("virtual balance", CONV + " _buy/_sell/_convert_cross_connector, getConnectorBalance")], T_PATH,
     "virtual-update: exact post-state per path; virtual-not-negative; virtual-before-pay; virtual-sole-writers; reported-balance")

prop("C17", "Fees stay within the ceiling and are charged exactly once per leg",
     "The maximum fee is fixed at installation within 0..100%; the fee starts at zero and only the owner or manager sets it, to any value within 0..maximum. Every conversion pays the gross formula return "
     "reduced by the fee once (twice for cross-connector conversions), rounded down, and quotes and the logged fee agree with that.",
     ["inputs", "histories"], "all fees, amounts, conversion kinds",
     "Tests check a handful of numbers; the bound must hold wherever the fee is written.",
     [CONV], [("fee", CONV + " setConversionFee / getFinalAmount")], T_PATH,
     "fee-bounds (+ exact), fee-effect, max-fee-fixed/bounds, fee-sole-writer, fee-formula (term equality), fee-charged, fee-reported, quote-fee")

prop("C18", "The connector table stays consistent and weights never exceed 100%",
     "The weights of all connectors sum to the recorded total, each weight and the total stay within 1..1000000; a connector is added only once, by the owner, while the converter is inactive, "
     "for a valid address that is neither the converter nor its token, and starts enabled with no virtual balance. Updating changes exactly weight, virtual-balance flag and virtual balance of an existing connector. "
     "The connector count, list and record queries report exactly this table.",
     ["inputs", "histories"], "all sequences of connector operations and arguments",
     "Histories of adds and updates with arbitrary weights are unbounded.",
     [CONV], [("table", CONV + " addConnector / updateConnector / getConnector")], T_PATH,
     "add/update (+ exact acceptance), add-effect, add-list, update-effect, weights-sum (sum of weight deltas equals delta of the total on every path), table-sole-writers, list-getters, connector-getter")

prop("C19", "Tokens held by contracts leave only by conversion or owner withdrawal",
     "Token withdrawal pays exactly the requested positive amount of the requested token to a valid other recipient, for the owner only, and an active converter never lets its "
     "connector tokens be withdrawn. No other operation moves tokens held by a contract. Plain deposits to a converter are accepted from its owner or manager while it is inactive, for connector tokens, and from nobody else.",
     ["inputs", "histories"], "all callers, tokens, recipients and converter states",
     "Tests cover one allowed and one refused withdrawal; this check found that managers could never deposit.",
     [HOLD, CONV, NET, FLEX], [("withdraw", HOLD + " withdrawTokens; " + CONV + " withdrawTokens"), ("deposit", CONV + " tokenFallback")], T_PATH,
     "withdraw-guard (+ exact), withdraw-effect, no-other-outflow, deposit-guard, deposit-accepted")

prop("C20", "Registry changes can be verified, undone and locked",
     "Updating the registry adopts exactly the address the current registry names for itself, only if it is valid and different, remembers the previous one, and is open to all unless locked (then to the owner only). "
     "Restoring brings back the remembered registry and locks updates; the lock takes exactly the requested state; both are for owner or manager. Nothing else changes these settings.",
     ["inputs", "histories"], "all sequences of update, restore and lock and all registry answers",
     "Tests mock one registry answer; histories (update twice, restore, lock) are not explored.",
     [CONV], [("registry", CONV + " updateRegistry / restoreRegistry / disableRegistryUpdate")], T_PATH,
     "update (+ exact), update-effect, restore, restore-effect, lock, lock-effect, registry-sole-writers, distinct-slots")

prop("C21", "Emergency switches stop exactly what they name",
     "While conversions are disabled no conversion executes; while purchases with a connector are disabled nothing is bought with it and it is not the target of a cross-connector conversion or quote, but selling into it stays possible. "
     "Owner or manager (purchases: owner) set the switches to exactly the requested state, and nothing else changes them.",
     ["inputs", "histories"], "all switch histories, conversions and quotes",
     "Tests flip each switch once for one conversion kind.",
     [CONV], [("switches", CONV + " disableConversions / disableConnectorPurchases")], T_PATH,
     "switch (+ exact), switch-effect, switch-respected, purchase-switch, purchase-respected, selling-always-possible, *-sole-writer")

prop("C22", "Conversion paths are accepted exactly when well-formed",
     "A conversion or path quote is accepted only for paths of 3 to 21 elements, odd in number, of valid addresses in which no flexible token is used for more than one hop (no circular paths); blanks around an address are ignored. "
     "Every length in that range is supported, and no well-formed path is refused for its shape.",
     ["inputs"], "all path strings up to the limit, in all three operations that take one",
     "Path shapes are combinatorial; tests use one or two short paths.",
     [NET], [("path checks", NET + " _convert_path / _check_valid_path")], T_PATH,
     "path-valid: each shape condition is established on every accepting partition (one set per path length 0..23); path-supported: each odd length 3..21 has accepting partitions; path-exact: shape refusals refute a condition; blanks-ignored")

prop("C23", "The network moves exactly the tokens the trader sent",
     "A network conversion spends exactly the received amount of the received token: a token notification's sending token must be the path's first token, and ICX must be sent along with a path that starts at a registered ICX token, to which it is forwarded first. "
     "Amount and minimum return must be positive; the network keeps no state for conversions; a conversion result coming back is accepted silently. Only the owner registers or unregisters ICX tokens.",
     ["inputs", "histories"], "all requests by any sender, all paths and amounts",
     "Forged requests (path starting at another token, unregistered ICX tokens) are unbounded.",
     [NET], [("source checks", NET + " tokenFallback / convertFor / _convert_for_internal")], T_PATH,
     "admission (+ request-complete), source-amount, icx-forwarded, no-state, result-accepted, register, register-effect, register-sole-writer")

prop("C24", "Each hop passes on exactly what the previous one paid, to the end",
     "Every hop sends the whole amount obtained from the previous one to the converter owning the hop's token, asking for the hop's target; only the last hop carries the trader's minimum return, and what a hop paid is measured by "
     "the network's own balance change. The result goes entirely to the requested recipient, as ICX when the last token is a registered ICX token, is at least the minimum and is what is reported; path quotes chain the converters' quotes the same way.",
     ["inputs", "histories"], "all path lengths and token kinds, all converters' behaviour",
     "Multi-hop behaviour is tested for two hops with mocks.",
     [NET], [("hop loop", NET + " _convert_by_path"), ("quote", NET + " getExpectedReturnByPath")], T_PATH,
     "hop-count, hop-token, hop-converter, hop-amount, hop-request, hop-target, hop-minimum, final-minimum, hop-measured, delivery, reported-return, quote-chain on every partition")

prop("C25", "Malformed or misdirected token messages revert, and no error is swallowed",
     "Tokens sent to converter or network with data that is not well-formed UTF-8 JSON text with the documented fields (for the network an integer minimum return and, if any, a well-formed recipient) are refused as a whole unless the protocol accepts plain deposits or results there; "
     "token and registry contracts accept no token messages. No operation of any contract succeeds after an error or failed payment occurred inside it.",
     ["inputs", "fault_sequences"], "all message bytes, all failing calls and payments",
     "Arbitrary bytes and failing external calls cannot be enumerated.",
     [CONV, NET, ICX], [("decoding", CONV + " tokenFallback; " + NET + " tokenFallback")], T_PATH,
     "no-swallowed-error (no success path contains a caught error or ignored payment failure), request-decoded (strict UTF-8), request-field, request-recipient, request-integer, no-silent-acceptance")

prop("C26", "The score registry maps known names to contract addresses",
     "Only the owner registers an address, only for a known score name and an existing contract address, and the lookup reports exactly the last address registered or the zero address when none is. "
     "Unregistering clears exactly that name and is refused for unregistered names. The names under which contracts look each other up are known names.",
     ["inputs", "histories"], "all names, addresses, callers and histories",
     "Histories over all names and cross-contract name agreement are not tested.",
     [REG, CONV, NET], [("registry", REG + " registerAddress / getAddress")], T_PATH,
     "known-names, register (+ exact), register-effect, unregister (+ exact), unregister-effect, lookup, registry-sole-writers, lookup-names")

T_GLOB = "whole-program abstract interpretation plus syntax-tree and interface queries"

prop("C27", "Queries change nothing",
     "Every documented query is offered as read-only, and on no input, caller or state does a read-only operation write storage, send ICX or tokens, "
     "emit an event, invoke another contract's state-changing operation or keep anything in memory for a later call.",
     ["inputs", "histories"], "all 47 documented queries and every other read-only operation, all arguments and states",
     "Tests check returned values, not the absence of effects on every path (and the local test double does not enforce read-only).",
     [CONV, NET, FLEX, IRC, ICX, REG, OWN, MAN], [("read-only operations", "@external(readonly=True) methods of every contract")], T_GLOB,
     "query-offered: documented queries exist and are read-only; query-pure: no write, list change, payment, call, event or module mutation on any partition of a read-only entry point")

prop("C28", "Contracts fit together and deploy",
     "Every call one contract makes to another names an operation the callee offers, with the declared number, names and types of arguments and a compatible result; abstract interfaces, proxies and implementations agree on names, "
     "order, optionality and mutability of parameters; external operations, events and fallbacks follow the ICON API rules the platform enforces at deployment.",
     ["inputs", "histories"], "all call sites, interfaces and entry points",
     "Unit tests mock the other contract, so a mismatching name or argument passes; the platform rejects it only on chain.",
     [CONV, NET, ICX, "contracts/interfaces", PROXY], [("proxies", PROXY), ("abstract interfaces", "contracts/interfaces")], T_GLOB,
     "callable, argument-type, return-type, event-type on every partition; interface-offered, interface-parameters, interface-uniform, deployable, event-declaration on every declaration")

prop("C29", "Stored data never collides and keeps its type",
     "Different state variables, and different items of one keyed variable (token, account, spender, connector field), never share a storage key; each location always holds values of its one declared type.",
     ["inputs", "histories"], "all keys built from any arguments, all contracts",
     "Collisions appear only for particular key combinations or when two features are used together.",
     [STORE, CONV, IRC, OWN, MAN, NET, REG], [("storage names", STORE + " and every VarDB/DictDB/ArrayDB construction")], T_GLOB,
     "distinct-slots, per-item-slots, injective-keys (key terms injective in their arguments), typed-values, one-type-per-slot, one-kind-per-name")

prop("C30", "Each contract is packaged complete and faithfully",
     "Building a contract yields exactly the configured files and the contract's own package, copied unchanged from the current sources, with a manifest naming its main module and class; within the package every import resolves and "
     "provides the imported names, and the archive contains exactly the package directory and is packed as requested and can be read back whole (bytes and member list). Every contract of the project can be built.",
     ["inputs", "configurations"], "all deployable contracts, every file of the package, any project location",
     "Tests import the source tree, never the packaged one, where a missing file or name only shows up on deployment.",
     [BUILD, BLD, WRT, EXE], [("builder", BLD), ("archive writer", WRT), ("package configuration", EXE)],
     "symbolic execution of the generator over a file-system model plus import-closure analysis of the shipped tree",
     "configured, builds, source-exists, faithful-copy, nothing-superfluous, manifest, configured-files, own-files, main-module, main-class, import-resolves, archive-equals-tree, archive-read-back, archive-packing, all-built, for three project roots (absolute, relative, and one repeating the names the builder searches for)")

prop("C31", "The generator touches nothing but its build folder",
     "Building creates, replaces and deletes files only below the build folder of the requested contract and leaves no stale file of an earlier build; cleaning removes exactly the build folder; an unknown contract name changes nothing; extracting an archive replaces exactly the given folder.",
     ["inputs", "histories"], "all contract names (unknown ones symbolic), any pre-existing build tree",
     "The generator deletes trees recursively; what it may delete depends on names and on what exists.",
     [BUILD, BLD, WRT], [("tree operations", BLD + " (rmtree, mkdir, copy)")],
     "symbolic execution of the generator over a file-system model (effect analysis of every tree operation)",
     "confined, no-stale-files, finishes, clean, unknown-name, archive-confined")

prop("C32", "The price formula has the documented domain and special cases",
     "The formula answers exactly for positive supply and balances, weights of 1 to 1000000 ppm and sales not above the supply (base below 2^129), and refuses everything else. Zero amounts return zero, selling the whole supply returns the whole balance, "
     "weight 100% (or equal weights) gives the exact linear rule rounded down, for every argument.",
     ["inputs"], "all integer arguments of the three formula operations",
     "The domain borders and special cases are sets of arguments of every magnitude; tests sample a few.",
     [FORM], [("domain checks and special cases", FORM + " calculate_*_return")],
     "path-sensitive abstract interpretation with polynomial value numbering",
     "domain: each documented condition established on every answering partition; domain-exact: refusals refute one; special-case: exact term on every partition under each special-case assumption; general-case")

prop("C33", "The power function is computed exactly as specified, for all inputs",
     "For every argument the three formulas return, bit for bit, what the documented fixed-point algorithm gives: optimal logarithm and exponential with tables derived from e^(1/2^n), e^(2^n) and factorials, generic logarithm with the scaled ln 2, "
     "highest usable precision, generic exponential, and rounding towards the pool.",
     ["inputs"], "all integer arguments; all table entries",
     "One wrong table digit or branch affects only a sliver of inputs; the existing accuracy test samples a few magnitudes.",
     [FORM, "contracts/formula/auto_generate"], [("kernels and tables", FORM + " _power, _optimal_log, _optimal_exp, _general_log, _general_exp, _max_exp_array")],
     "symbolic equivalence by value numbering: repository functions against a reference analysed side by side, tables recomputed from their definitions",
     "kernel: repository functions matched by behaviour with reference kernels; exact-result: on every partition of each public formula the reference under the same facts returns the same term (or both refuse)")

prop("C34", "Contract execution is deterministic",
     "What an operation does depends only on its arguments, caller, block data and contract storage: contracts import nothing but the ICON API, their own modules and pure helpers of the standard library, use no floating point, randomness, clock, file, "
     "network or introspection facility, never let set order become visible, and keep no chain-dependent data in Python memory.",
     ["inputs", "schedules", "histories"], "all contracts, all code reachable from their entry points",
     "Nodes disagree only under particular histories or interpreter states; a single-process test cannot see it.",
     [CONV, NET, FLEX, IRC, ICX, REG, FORM, UTIL], [("contract modules", "all modules imported by the deployable contracts")], T_GLOB,
     "imports, no-forbidden-builtin, no-floating-point, no-unmodelled-call, no-set-order, no-memory-state, deterministic-values")

prop("C35", "Installation establishes the documented state and upgrades keep it",
     "Installing a contract sets exactly the documented initial configuration from its parameters and refuses inadmissible ones (negative supply or decimals, missing token or registry, fee ceiling outside 0..100%, inadmissible initial connector). "
     "Upgrading never fails and changes nothing, installation and upgrade hooks are not callable from outside, and identity settings (token names, symbol, decimals, version; the converter's token and fee ceiling) never change afterwards.",
     ["inputs", "histories"], "all installation parameters, all later histories",
     "Tests install with one parameter set; immutability is over all operations.",
     [CONV, FLEX, IRC, ICX, NET, REG, OWN, MAN], [("installation", "on_install / on_update of every contract")], T_PATH,
     "lifecycle-not-public, update-preserves, install-accept (+ exact), install-state (post-state terms), install-only (no later writer), instantiable")

prop("C36", "Every query answers, with the current state, the same for everybody",
     "Each documented query reports exactly the present stored value it names, for every state and argument: owners, nominees, manager, token, registries, fee, switches, version, token data and balances, registered ICX tokens and scores, "
     "connector count, list and records (an empty record for what is no connector) and connector balances; a converter is active exactly when it owns its token at present. Plain queries never fail, different queries report different values, "
     "and no answer depends on who asks.",
     ["inputs", "histories"], "every state, argument and caller, for every read-only operation of every contract",
     "Tests compare single answers in mocked states; wallets, the other contracts and the owner's decisions rely on the answers in every state.",
     [CONV, NET, FLEX, IRC, REG, OWN, MAN, CTRL],
     [("queries", "all external(readonly=True) operations"), ("activity", CTRL + " FlexibleTokenController.isActive")], T_PATH,
     "query-offered, never-refused (no failing partition), reports-state (the returned term is the location, on every partition), asked-item, own-value, "
     "reports-active, reports-connector, reports-balance, reports-list, reports-fee, reports-address, same-for-all (neither the result nor a path fact mentions the caller)")

prop("C37", "Deployed contracts find their data again after an upgrade",
     "Every balance, role, setting, connector record, list, registered ICX token and registered score address is read from and written to the very storage place (container kind, name, key and value type) "
     "where released versions of the contract keep it, so that upgrading a deployed contract to the current code preserves everything it stored.",
     ["histories", "configurations"], "every state any released version can have left, for every stored item of every contract",
     "Tests always start from empty storage written by the same code, so a renamed or re-keyed variable passes all of them and loses the data of every deployed contract.",
     [STORE, CONV, IRC, FLEX, NET, REG, OWN, MAN],
     [("storage declarations", "VarDB/DictDB/ArrayDB constructions in every contract"), ("connector records", CONV + " Connectors")], T_PATH,
     "stored-in-place: the location each public query reports (container, name, symbolic key, type), the total weight and the connector list equal the recorded layout of the released contracts (LAYOUT in sa/rules/queries.py)")

prop("C38", "The storage wrapper keeps every field in its own container",
     "For every table of declared fields and every value, the storage wrapper reads and writes each field in exactly its own container (kind, name and value type as declared) of the database it was given: "
     "reading a single-value field answers what is stored and changes nothing, assigning it stores exactly the assigned value there and nowhere else and reads back, dictionary and array fields are handed out as their containers and survive an assignment, "
     "fields whose names begin alike, fields declared later and wrappers over other databases stay independent, ordinary attributes never touch storage, and an unknown field is an attribute error.",
     ["inputs", "configurations"], "every declaration built from the three containers and five value types, every stored and assigned value",
     "Tests declare three fields with unrelated names and use a few integers; a contract's stored state depends on every name, kind and type it declares.",
     [STORE], [("wrapper", STORE + " Storage.add_fields, __getattribute__, __setattr__")], T_PATH,
     "wrapper-offered, reads-own-container (the answer is the cell of the declared container), reading-changes-nothing, writes-own-container (symbolic post-state), reads-back, independent, container-reachable, container-writes, "
     "container-kept, own-database, plain-attribute, unknown-field, declared-later; the wrapper's source is interpreted with symbolic stored and assigned values for every kind and type alone and for mixed tables of eighteen names")

NA = [
    {"id": "N01", "title": "The power function is numerically accurate",
     "statement": "The fixed-point result of the power function never exceeds the real value base^exponent and misses it by less than one part in 10^6 over the whole supported range, so rounding always favours the pool.",
     "over": ["inputs"], "text": "all admissible bases and exponents",
     "why": "The range has about 2^300 points.", "files": [FORM], "mech": [("power", FORM + " _power")],
     "reason": "a bound between the fixed-point program and real exponentiation needs error analysis with real-arithmetic reasoning (a solver or proof assistant), not dataflow; C33 decides bit-exact agreement with the specified algorithm instead"},
    {"id": "N02", "title": "No sequence of conversions extracts value from the pool",
     "statement": "Starting from any state, no sequence of purchases, sales and cross-connector conversions by one trader ends with more of every asset than it began with.",
     "over": ["inputs", "histories"], "text": "all conversion sequences and pool states",
     "why": "Unbounded histories over runtime balances.", "files": [CONV, FORM], "mech": [("conversion", CONV + " _convert"), ("power", FORM + " _power")],
     "reason": "depends on monotonicity and accuracy of the numeric power function over runtime balances; no sound static argument in reach (see N01)"},
    {"id": "N03", "title": "Every operation fits the step limit",
     "statement": "Every operation on any admissible input completes within the network's step limit.",
     "over": ["inputs", "configurations"], "text": "all operations, path lengths and connector counts",
     "why": "The cost grows with runtime list lengths.", "files": [CONV, NET], "mech": [("hop loop", NET + " _convert_by_path")],
     "reason": "step prices and limits are governance parameters of the network, not present in the sources"},
    {"id": "N04", "title": "The connector balance a contract assumes equals what it holds",
     "statement": "A converter's real connector balance always equals its token balance in the connector token contract, even for arbitrary third-party connector tokens.",
     "over": ["inputs", "histories", "fault_sequences"], "text": "all third-party tokens and histories",
     "why": "Third-party tokens are arbitrary code.", "files": [CONV], "mech": [("connector balance", CONV + " getConnectorBalance")],
     "reason": "quantifies over the behaviour of contracts whose source is not in the repository (a token may fake transfers); for the repository's own tokens C04 and C05 decide the bookkeeping"},
    {"id": "N05", "title": "The formula generators reproduce the deployed formula",
     "statement": "The scripts below contracts/formula/auto_generate print exactly the constants, tables and function bodies the deployed price formula contains.",
     "over": ["configurations"], "text": "all generator scripts and constants",
     "why": "A regenerated formula would silently price differently.", "files": ["contracts/formula/auto_generate/common/functions.py"],
     "mech": [("table search", "contracts/formula/auto_generate/common/functions.py get_max_exp_array, binary_search")],
     "reason": "the scripts take no input: what they print is found by running them (256-step searches and 100-digit decimals), which is a test and not a static argument; C33 decides the deployed constants and tables against their mathematical definitions instead"},
]
