EXH = "Assurance by observation: every execution of the generated parsers that was driven is judged by an independent reference; nothing is claimed for specifications and inputs that were not generated. Trusted: the reference LALR/Earley model in harness/src, rustc."
REF = "runtime monitoring: per-call trace monitor stepping an independent reference LALR(1) machine, run over generated parsers; "
CLAIMED = {
 "C01": ("runtime monitoring: trace oracle (independent Earley recogniser and LALR(1) reference) over generated parsers under random and table-covering token workloads", EXH),
 "C02": (REF + "instrumented values with identities record every action's arguments and results, checked against the derivation", EXH),
 "C03": ("runtime monitoring of the macro's verdict (parser or conflict error) on random grammars against the verdict of an independent LALR(1) construction with precedence, plus ambiguity search", EXH),
 "C04": ("runtime monitoring: offline checker comparing logged actions with an automaton-free precedence oracle on operator grammars, plus the reference machine", EXH),
 "C05": (REF + "viable-prefix oracle (Earley) and work bound checked at every call", EXH),
 "C06": (REF + "logged handler token and expected list against the reference state", EXH),
 "C07": (REF + "error-recovery phases of the reference machine", EXH),
 "C08": (REF + "comparison of a run with dropped tokens with the run that never had them", EXH),
 "C09": (REF + "fault injection in actions and handlers, error identity and finality", EXH),
 "C10": (REF + "history hash threaded through the extra argument, accessor reads and writes between calls", EXH),
 "C11": ("runtime monitoring: instrumented stack types log every operation; overflow predicted from the unlimited run; differential run over stack types and limits", EXH),
 "C12": (REF + "fallback workload reaching sampled table cells with every token", EXH),
 "C13": (REF + "wildcard workload reaching sampled table cells with every token", EXH),
 "C14": ("runtime monitoring: differential trace comparison between a specification and its written-out expansion, plus the reference machine", EXH),
 "C15": ("runtime monitoring: differential trace comparison between a specification and its written-out expansion, plus the reference machine", EXH),
 "C16": (REF + "typed payloads with identities, exhaustive matches on the token enumeration", EXH),
 "C22": (REF + "construction/destruction log of every payload (drop conservation between calls and at the end); Miri on a sample", EXH),
 "C17": ("runtime monitoring of the macro itself: fault-injected, shaken and token-fuzzed specifications, with a monitor for crash, hang, and position of the diagnostic; well-formed ones must build", EXH),
 "C18": ("runtime monitoring: differential trace comparison between a specification and its reorderings, renamings and rebuilds in separate compiler processes, plus the reference machine", EXH),
 "C20": (REF + "specifications padded to cross every table-width boundary, differential trace comparison with the unpadded one; self-checking long and deep inputs", EXH),
 "C19": ("runtime monitoring: instances stepped by four schedulers (interleaved, thread pool with migration, concurrent, nested in actions) compared with their solo runs; Miri for data races and undefined behaviour", EXH),
 "C21": (REF + "no_std build with fixed-capacity stacks and a counting global allocator armed inside the parser", EXH),
 "C23": ("runtime monitoring: differential trace comparison between generic parsers (two instantiations side by side) and the concrete specification, address checks of borrowed payloads", EXH),
 "C24": (REF + "parsers cloned at random points and carried on in random order, each in its own copy of the world; every clone's event log must equal the original's", EXH),
 "C25": ("runtime monitoring: the automaton printed by the macro (%verbose dump or conflict report) is recorded, parsed and compared state by state with a reference LALR(1) construction", EXH),
 "C26": (REF + "each specification built in several editions and build profiles, traces of all builds compared, builds with warnings and unsafe code forbidden", EXH),
}
NA = {}
