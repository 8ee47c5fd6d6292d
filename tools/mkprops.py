import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
TD="src/fora/connectors/tunnel_dispatcher.py"; TC="src/fora/connectors/tunnel_connector.py"
CN="src/fora/connection.py"; FI="src/fora/operations/files.py"; UT="src/fora/operations/utils.py"; API="src/fora/operations/api.py"
SY="src/fora/operations/system.py"; SD="src/fora/operations/systemd.py"; LO="src/fora/loader.py"; MA="src/fora/main.py"; TY="src/fora/types.py"; IW="src/fora/inventory_wrapper.py"; UL="src/fora/utils.py"
p("C01","Data to and from a host arrives byte-exact whatever the stream does",
 "As long as the connection is not lost, every uploaded file, downloaded file, command line, command input and output, stat answer, account answer and environment value is delivered exactly as it was on the other side - for every content, size and text, including empty, binary, multi-megabyte, and names that are not valid UTF-8. This holds however the transport splits, merges, delays or partially accepts the bytes and however small its buffers are, and every such call completes (no deadlock).",
 ["schedules","inputs","fault_sequences"],"all contents and texts; all fragmentations, delays, buffer sizes and interleavings of the two processes and the transport",
 "tests talk to one local child over an idle pipe with a handful of tiny ASCII payloads; they see one fragmentation",
 [TD,TC,CN],[("length-prefixed field (de)serialisation",TD+":_serialize/_deserialize"),("buffered exact reads/writes",TD+":Connection.read/write/flush"),("request/response call",TC+":_request")],
 observe=["return values of Connection.run/upload/download/stat/query_*/getenv","file contents on the host"])
p("C02","A lost connection is never mistaken for an answer",
 "If the connection to a host is lost at any point - the remote side dies, the stream is cut after any byte in either direction, or the session never starts - every call that had not yet received its complete answer raises an I/O error and never returns a value, a default, 'does not exist' or success. No operation or deploy reports success or carries on past it, a request that reached the host only in part is never acted upon, and the failure surfaces promptly instead of hanging.",
 ["crash_points","fault_sequences","schedules"],"every byte offset of either stream, every crash point of the remote process, every call kind and every operation",
 "tests never break a connection; the one EOF test only covers a zero-byte answer",
 [TD,TC,CN,FI,UT],[("short reads become IOError",TD+":receive_packet"),("dispatcher exits on broken stream",TD+":_main"),("only ENOENT/invalid-field answers map to None/default",TC+":stat, "+CN+":download_or/query_*")])
p("C03","Every call gets its own answer; errors are specific and survivable",
 "A call returns or raises only what its own request produced on the remote: a remote operating-system error raises the remote-OS error with the same errno and error text, invalid users/groups/modes/directories/paths raise a value error, and a checked command raises a process error exactly when its exit status is non-zero, carrying the real status, stdout and stderr. After any such error - including arguments that cannot be transmitted or that the remote cannot use - the same connection stays in sync and the next call is answered correctly. Nothing a remote command reads or prints can consume or inject bytes of the protocol stream, whether or not its input is given or its output captured.",
 ["histories","inputs","fault_sequences"],"all sequences of calls, arguments (valid or not), command behaviours and remote system-call failures on one connection",
 "tests check single calls with a few invalid fields; they never mix failures, odd arguments and later calls on one stream",
 [TD,TC],[("error packets",TD+":PacketOSError/PacketInvalidField/PacketProcessError"),("dispatch loop",TD+":_main"),("expected response type check",TC+":_expect_response_packet"),("subprocess stdin/stdout handling",TD+":PacketProcessRun.handle")])
p("C04","Remote effects happen at most once, and in program order",
 "Every command a script runs and every file it uploads takes effect on the host exactly once when the call returns a result, and at most once when it raises; effects occur in program order and none begins before the effects of the preceding call have finished. Nothing is ever retried, duplicated, reordered, buffered past the call's return, or executed without having been requested - including while the session is being opened or closed and after an error or lost connection.",
 ["schedules","crash_points","histories"],"all histories of calls under all schedules, stream cuts and remote crashes",
 "tests observe only final results of single calls; duplicated or late execution is invisible to them",
 [TD,TC,CN],[("strict request/response",TC+":_request"),("single-threaded dispatch loop",TD+":_main"),("flush per packet",TD+":_write_packet")])
p("C05","A command runs exactly in the requested context or not at all",
 "A remote command is executed with exactly the argument vector, standard input, user, group, umask and working directory requested for the call or inherited from the active defaults (group defaulting to the requested user's primary group, umask to 077). If any part of that context cannot be established - unknown user, group or directory, malformed umask, or a failing system call while switching - the call raises and the command is not executed at all, in particular never with more privileges than requested.",
 ["inputs","fault_sequences","histories"],"all contexts, argument vectors and inputs; failures of every set-up system call",
 "tests run as one user, check few combinations and cannot make setresuid/setresgid/chdir/fork/exec fail",
 [TD,CN],[("child pre-exec hook",TD+":PacketProcessRun.handle.child_preexec"),("fallback to defaults",CN+":Connection.run")])
p("C06","A file operation that reports success left the declared state",
 "When a directory, file, link, upload, upload-directory, template or line operation reports success outside a dry run, the host has exactly the declared existence, type, content, link target, mode (including set-id and sticky bits), owner and group, and for a line operation contains or no longer contains the line by the documented matching rule. Any fault that prevented this - a failing or killed remote command, failing, full or read-only storage, a failing local read or directory listing, a lost connection - surfaces as a raised error or a failed result, never as success.",
 ["inputs","fault_sequences","histories"],"all declared and initial states; faults at every remote and local system call and every command step",
 "tests run a few happy-path states as root on an intact filesystem",
 [FI,UT,TD,CN],[("stat-compare-apply",FI+":directory/file/link/line, "+UT+":save_content"),("checked commands",TC+":run(check=True)"),("upload handler",TD+":PacketUpload.handle")])
p("C07","Re-running an interrupted deploy converges and then changes nothing",
 "However a deploy was interrupted - remote or controller crash, power loss, lost connection, failing command or disk - running the same deploy again without faults reaches the same host state as a run that was never interrupted. One further run reports every operation unchanged (except explicitly requested touches, restarts and reloads) and performs no modification of the host at all.",
 ["crash_points","fault_sequences","histories"],"all deploys, initial states and interruption points, including partially executed remote commands",
 "tests run operations to completion at most twice from clean states; they cannot stop half-way",
 [FI,UT,SY,SD],[("state is always re-read from the host",FI+" stat/sha512 compare"),("idempotent commands",UT+":save_content/generic_package")])
p("C08","A dry run changes nothing and predicts the real run",
 "With the dry-run option a deploy never modifies a host in any way: no file, directory, permission, account, package or service changes, whatever the operations, options, verbosity and faults. Every operation reports the same success, changed flag, initial and final state that a real run from the same host state reports when the operation does not depend on an earlier change of the same deploy.",
 ["inputs","configurations","histories"],"all operations, parameters, initial states, option combinations and faults",
 "tests dry-run each operation once or twice and only look at the path they created",
 [FI,UT,SY,SD,MA],[("'if not fora.args.dry' guards",FI+", "+UT+", "+SY+", "+SD)])
p("C09","Reported changes are the truth",
 "For every operation that reports success, 'initial' is the state the host really had immediately before the operation, every value 'final' declares is what the host really has after it (outside a dry run), and 'changed' is true exactly when they differ; an operation that reports unchanged has modified nothing. A failed result never claims a change, and when an operation declared with check=False fails it returns such a failed result instead of raising, for every failure the operation itself detects.",
 ["inputs","histories","fault_sequences"],"all operations, parameters and host states",
 "tests assert 'changed' and selected keys for a few states",
 [API,FI,UT,SY,SD],[("state tracking",API+":Operation.initial_state/final_state/success/failure"),("check handling",API+":operation wrapper")])
p("C10","Operations leave everything they do not manage untouched",
 "An operation changes nothing on the host but the paths, attributes, accounts, packages and services it was asked to manage, even when it fails half-way; unspecified attributes of existing objects keep their value and unrelated files inside managed directories, like edited or untracked files inside a git clone, survive. A managed file that is not fully written holds a prefix of the new content or its old content, never anything else, and a line operation preserves every other line of the file byte for byte and, if a backup was requested, has an identical copy (content, owner, group and mode) in place before the original is first modified.",
 ["inputs","fault_sequences","crash_points"],"all operations and host states; interruption and faults at every step",
 "tests look only at the object under test and never at failure paths",
 [FI,UT,SY,TD],[("single-path commands",FI),("no parent creation, -n link handling",FI+":link"),("backup copy before upload",FI+":line")])
p("C11","A session is always torn down, and the first error survives",
 "However a host's deploy ends - success, script error, interrupt, failed start, a remote that died, a cut stream, or a fault while opening or closing - the remote process is told to end and has ended, both its streams are closed, the process is reaped and the host no longer has an active connection once the run returns. The error reported to the user is the one that ended the deploy, never replaced by a secondary error from tearing down, and tearing down waits at most for the remote command in progress, never for ever.",
 ["fault_sequences","crash_points","schedules"],"all ways and points at which a deploy, the open or the close can fail",
 "tests open and close healthy local sessions only",
 [TC,CN,MA],[("open/terminate on failure",TC+":open"),("close handshake and reaping",TC+":close"),("context manager",CN+":Connection.__enter__/__exit__"),("with open_connection",MA+":main_run")])
p("C12","Fleet runs reach the selected hosts, in order, in isolation",
 "A run executes the script exactly once for each selected host, in selection order with duplicates ignored, and every operation of that execution affects only that host; hosts that were not selected are never contacted. An unknown host in the selection, or an invalid inventory, aborts before any host is contacted; a failure on one host aborts the run with a failure before any later host is contacted, leaving earlier hosts completely deployed. Variables, defaults and connection state of one host never leak into another.",
 ["configurations","histories","fault_sequences"],"all inventories, selections, connector kinds and failure points",
 "tests run one local host",
 [MA,CN,TY,IW],[("selection and per-host loop",MA+":main_run"),("active host global",MA+", "+LO),("url/connector selection",TY+":HostWrapper.create_connector")])
p("C13","Nested scripts see and restore exactly the right context",
 "While a script runs, the current directory is that script's directory, the active script is that script, and it starts from fresh remote defaults and exactly the parameters it was given; when it ends - normally, by any exception or by an interrupt - the caller's directory, active script, defaults, parameters and output nesting are what they were before. A script that (transitively, under any path spelling) calls itself without allowing recursion is rejected before it runs again, while legitimate repeated, sibling or explicitly recursive calls work.",
 ["programs","histories","fault_sequences"],"all script trees, parameter sets, exits and failure points",
 "tests nest two scripts and only check they run",
 [LO,"src/fora/operations/local.py",TY,"src/fora/logger.py"],[("push/pop with finally",LO+":run_script"),("recursion guard","src/fora/operations/local.py:script"),("parameters",TY+":ScriptWrapper.Params")])
p("C14","Inventory evaluation does not depend on arbitrary ordering",
 "For every inventory, whether it is accepted and every variable value on every host are independent of hash seeds, directory listing order, declaration order of groups and group names (only entries that unordered groups add in place to one list may appear in either order). Groups are evaluated after all groups they are ordered after, later groups and finally the host override earlier values, and inventory-declared host variables are visible first; an assignment to the same variable by two groups of a host is rejected exactly when neither group is (transitively) ordered before the other, and cycles, duplicates, self-dependencies and unknown groups are always rejected.",
 ["configurations","schedules"],"all group graphs, variable assignments, hosts and all orderings of sets, dictionaries and directory listings",
 "tests load about twenty fixed inventories under one hash seed per run",
 [IW,UL],[("rank sort / topological order",UL+":rank_sort, "+IW+":_calculate_topological_order"),("conflict detection",IW+":instanciate_host.record_variable_change")])
p("C15","Accounts, packages, services and repositories end as declared or fail",
 "When a user, group, package, service or git-repository operation reports success outside a dry run, the host has exactly the declared attributes - ids, primary and supplementary groups (replaced or appended as asked, including to none), password, comment, home, shell, installed or removed packages, unit state and enablement, the commit the requested branch or tag (or the remote's default branch) stands for, with the requested depth and submodule options - and attributes not mentioned keep their value. Whichever supported package or service manager the host has is used; if a tool fails, is missing, is killed half-way or the connection is lost, the operation raises or fails and never reports success.",
 ["inputs","fault_sequences","histories"],"all declared and initial account, package, service and repository states; faults at every step",
 "tests skip most of these without root or the tool; they cannot make tools fail",
 [SY,SD,UT,"src/fora/operations/pacman.py","src/fora/operations/apt.py","src/fora/operations/portage.py","src/fora/operations/git.py"],[("query-compare-apply",SY+":user/group"),("generic package manager",UT+":generic_package/find_command"),("unit state",SD+":service")])
p("C16","Contents are never exposed beyond the declared permissions",
 "At no instant while an operation creates or rewrites a file or creates a directory does that object carry group, other or set-id permission bits beyond its previous mode and its declared mode (a newly created directory or still empty file may also have what the active umask leaves open). A set-id bit that is being granted is never in force under an owner or group other than the declared one. This holds at every step, including when the operation is interrupted there for good.",
 ["crash_points","schedules","inputs"],"all instants (every remote system call) of all creating or rewriting operations, modes, owners, umasks and interruption points",
 "tests only look at the final mode",
 [TD,FI,UT],[("dispatcher umask 077",TD+":_main"),("umask of child",TD+":PacketProcessRun.handle"),("order of write, chown, chmod",TD+":PacketUpload.handle")])
p("C17","Remote defaults apply exactly inside their block",
 "Inside a defaults block every operation and command uses the block's values for whatever it sets and the enclosing values for everything else, an operation's own arguments override both, and after the block - however it is left - exactly the enclosing values apply again. Invalid settings (unknown user or group, non-octal mode, missing directory) are rejected when the block is entered, leaving the enclosing defaults in force; without any block the values are those of the session's own user, group and the inventory's base settings.",
 ["programs","histories","inputs"],"all nestings of blocks, operations and exceptions, in all scripts and hosts",
 "tests check two nested blocks on one host",
 [TY,CN,"src/fora/remote_settings.py"],[("overlay stack",TY+":RemoteDefaultsContext"),("resolution",CN+":resolve_defaults"),("overlay","src/fora/remote_settings.py:RemoteSettings.overlay")])
p("C18","The report tells the truth, and reporting more or less changes nothing",
 "Output options (verbosity, diffs, debug output, hiding changes, colour, terminal or not) affect only what is printed: the same hosts are contacted, the same commands and modifications happen, and every operation's result, every error and the exit are the same with and without them. What is printed about an operation names what it manages, marks dry runs as such and agrees with its result: failures are shown with their message (and a failed command's output), successes are not shown as failures, exactly the changed values are shown with old and new value (all values when verbose, none with changes hidden), a requested diff leads from the old to the new content of the file and is absent when nothing changed, and without colour no escape sequence is printed.",
 ["programs","configurations","fault_sequences"],"all scripts, option combinations, contents and fault sequences",
 "tests never look at the output, and compare no two runs that differ only in their output options",
 ["src/fora/logger.py","src/fora/operations/api.py","src/fora/main.py"],[("operation output","src/fora/logger.py:Logger.print_operation"),("diff","src/fora/logger.py:diff"),("operation results","src/fora/operations/api.py:Operation")])
p("C19","Scripts and templates see exactly the current host's and script's variables",
 "A script, and any template it renders, sees exactly the variables of the host it currently runs on - inventory variables overridden by the host's declaration, then by its groups in their order, then by its own module and by values set on the host during the run - over those of the script itself, with a template's explicit context above all; the names for the host and the inventory always denote the current ones. Variables of other hosts, of calling or called scripts and of earlier runs of a script are never visible, and falsy values count as values. Rendering a template that uses an undefined name fails without touching the host; otherwise the written file is exactly the rendered text.",
 ["programs","configurations","histories"],"all inventories, scripts, templates, contexts and sequences of hosts and nested scripts",
 "tests render two templates on one host with one variable each",
 [FI,TY,IW,LO],[("template variables",FI+":_render_template"),("look-up order",TY+":HostWrapper.vars_hierarchical/__getattr__"),("inheritance",IW+":instanciate_host")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
