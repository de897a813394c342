MC = "explicit-state exploration of the real code: "
prop("P01", "Reads return the latest write",
 "Whatever sequence of successful writes an initiator issued to a logical unit, by any of the write commands, with any mix of immediate, unsolicited and solicited data, a read of any extent by any read command returns for every block exactly the bytes of the last successful write that covered it, and zeros (the initial content) where none did. Blocks a command did not address are unchanged; a block named in an UNMAP afterwards reads as its previous content or as zeros.",
 ["inputs", "histories", "configurations"],
 "all sequences of WRITE(6/10/12/16), WRITE AND VERIFY(10/12/16), WRITE SAME, ORWRITE and UNMAP up to the depth, over all extents of a small medium and all single-bit block addresses of a large one, with every block size and backing store kind",
 "The functional tests write one pattern to a few extents with one command each; the property is about every sequence, extent, command form and data-transfer shape.",
 ["pkg/scsi/sbc.go", "pkg/scsi/backingstore.go", "pkg/scsi/backingstore/common.go", "pkg/scsi/backingstore/remote/remote.go", "pkg/port/iscsit/iscsid.go"],
 [("SBCReadWrite decodes address and length", "pkg/scsi/sbc.go"), ("bsPerformCommand moves the data", "pkg/scsi/backingstore.go"), ("Data-Out assembly", "pkg/port/iscsit/iscsid.go")],
 MC + "all command sequences up to a depth against a reference disk", "model_checking",
 "Exhaustive over the stated alphabet and depth; the reference model is a byte array; every step runs in the real target over an in-memory connection.")
prop("P02", "No command reaches outside the medium or the range it names",
 "A block command whose range (start, count) does not lie wholly inside the logical unit ends with CHECK CONDITION, ILLEGAL REQUEST, LOGICAL BLOCK ADDRESS OUT OF RANGE, changes nothing and returns no data; one that lies inside changes no byte outside its range, and no byte of any other logical unit. The backing store is never accessed outside the medium, whatever the address, count and data length, including values that overflow.",
 ["inputs", "configurations"],
 "all combinations of block command, boundary address, boundary count and expected data length over several media",
 "Tests probe a handful of out-of-range addresses with few commands; overflow and containment need the whole boundary product.",
 ["pkg/scsi/sbc.go", "pkg/scsi/backingstore.go"],
 [("range checks", "pkg/scsi/sbc.go"), ("clamp to transfer length", "pkg/scsi/backingstore.go")],
 MC + "boundary-value product of every block command against interval arithmetic", "model_checking",
 "Exhaustive over the boundary product; the medium is observed byte for byte, and the store reports any access outside itself.")
prop("P03", "A backing-store failure is never reported as success",
 "If any call a block command needs on its backing store fails, is cut short, or is refused (I/O error, short count, closed store, full medium, failing flush), the command ends with CHECK CONDITION and sense key MEDIUM ERROR or HARDWARE ERROR, never GOOD, and returns no data. Blocks outside its range keep their content, a command that does not write changes nothing, and later commands on this and every other session behave as on a healthy unit.",
 ["fault_sequences", "histories", "configurations"],
 "every block command with every FUA/DPO setting x every store kind x a fault at every store call it makes x every following command",
 "Unit tests have no failing store; the property is about the failure of each single store call of each command.",
 ["pkg/scsi/backingstore.go", "pkg/scsi/sbc.go", "pkg/scsi/backingstore/common.go", "pkg/scsi/backingstore/remote/remote.go"],
 [("bsPerformCommand maps store errors to sense data", "pkg/scsi/backingstore.go"), ("file store", "pkg/scsi/backingstore/common.go"), ("remote store", "pkg/scsi/backingstore/remote/remote.go")],
 "fault enumeration on the real code: a fault at each backing-store call of each command, exhaustively", "fault_enumeration",
 "Every store call site a command reaches is failed in turn, with each failure kind the store has; the outcome, the medium and the following command are compared with a model.")
prop("P04", "Acknowledged durable writes survive a crash",
 "Once SYNCHRONIZE CACHE has reported GOOD for a range, or a write with FUA set has reported GOOD, a crash at any later moment leaves every block of that range with its content at that time or with the content of a later write to it; status is not sent before the data is durable. Without a crash the medium holds exactly what was written.",
 ["crash_points", "histories", "configurations"],
 "all histories of writes, FUA writes, WRITE SAME, ORWRITE and SYNCHRONIZE CACHE up to the depth from one or two sessions x every store kind x every crash point x every subset of unsynced block writes lost",
 "A test cannot crash the machine; durability is about which write survives at every crash point under every loss of cached writes.",
 ["pkg/scsi/backingstore.go", "pkg/scsi/sbc.go", "pkg/scsi/backingstore/common.go"],
 [("FUA and WCE handling, SYNCHRONIZE CACHE", "pkg/scsi/backingstore.go"), ("DataSync", "pkg/scsi/backingstore/common.go")],
 "fault enumeration on the real code: every crash point of every history against all losses of unsynced writes", "fault_enumeration",
 "At each point between two store calls the set of possible contents per block is computed exactly; the store's sync contract (synced data survives) is assumed.")
prop("P25", "VERIFY finds every difference, and only writes change the medium",
 "VERIFY(10), (12) and (16) asking for a comparison end with GOOD exactly if all blocks they name are sent and hold those bytes, and otherwise with MISCOMPARE, wherever the difference is, however the data is delivered, whatever kind of store and block size the unit has and whatever was written before through any session or target; without one they end with GOOD inside the medium. Neither they nor any other command that is not a write (WRITE, WRITE AND VERIFY, WRITE SAME, ORWRITE, UNMAP; FORMAT UNIT may) changes a byte of any medium, whatever its CDB and data.",
 ["inputs", "histories"],
 "every position of a differing byte in one to three blocks, every form of delivery, every length of data; every other operation code with every service action and several parameter lists; every history of writes to the depth, verified through two targets",
 "A test compares one block that is equal and one that differs in the first byte.",
 ["pkg/scsi/sbc.go", "pkg/scsi/backingstore.go", "pkg/scsi/backingstore/common.go"],
 [("SBCVerify", "pkg/scsi/sbc.go"), ("bsPerformCommand", "pkg/scsi/backingstore.go")],
 "bounded exhaustive enumeration of commands and histories on the real code in deterministic worlds, compared with a model of the medium", "exploration",
 "Exhaustive within the stated media, lengths and depths; values of the data are representative.")
prop("P31", "What a connection or command used is let go when it ends",
 "However an iSCSI connection ends (closed or reset by the peer in any state, logout, refused login, turned away by single-host mode, replaced by a reinstatement), the target closes its socket, ends the goroutines that served it and gives back its session, I_T nexus and session identifier. After any number of connections that came and went, and after any number of commands of a session that completed, failed, were aborted or rejected, the target holds no more goroutines, sockets and memory than before and goes on granting logins.",
 ["inputs", "histories"],
 "every state of a connection x every way it can end, alone, in pairs and in every order; every cut of a session's byte stream; more sessions one after the other than there are session identifiers; thousands of commands of each kind and outcome",
 "A test opens a connection or two and ends; what is left behind shows only in the count of what is held, or after tens of thousands of sessions.",
 ["pkg/port/iscsit/iscsid.go", "pkg/port/iscsit/session.go", "pkg/port/iscsit/conn.go", "pkg/scsi/target.go"],
 [("receive", "pkg/port/iscsit/iscsid.go"), ("closeSession", "pkg/port/iscsit/session.go"), ("ReleaseTSIH", "pkg/port/iscsit/iscsid.go"), ("RemoveITNexus", "pkg/scsi/target.go")],
 "exhaustive exploration of connection states, ends and orders on the real code in deterministic worlds that count goroutines and sockets; long histories with a memory bound", "exploration",
 "Exhaustive within the stated states, ends, pairs and cuts; goroutines are those started by the program's own go statements. Memory is bounded to less than two words a round, so a smaller leak is not noticed.")
prop("P05", "A command reaches exactly the unit its target and LUN name",
 "A command sent on a session acts on the logical unit that the session's target maps at the LUN the command addresses (peripheral addressing of bus 0 or flat addressing), and on no other unit, whatever other targets, units and sessions exist, and through every LUN and target that maps the same device the same content is seen. A command whose LUN names no unit of the target ends with CHECK CONDITION and touches nothing (INQUIRY, REPORT LUNS and REQUEST SENSE to LUN 0 are always answered). Adding, removing or remapping a device at run time takes effect for the next command and leaves every other unit's mapping and content alone; a mapping to a device that does not exist is refused.",
 ["inputs", "histories", "configurations"],
 "every first two bytes of the LUN field and every single bit of the rest over several LUN sets; every sequence of reads and writes over two targets, two sessions and shared devices; every sequence of mapping changes up to the depth",
 "The tests use one target with LUN 0; misrouting needs several units, unusual LUN encodings and mapping changes between commands.",
 ["pkg/port/iscsit/cmd.go", "pkg/scsi/scsi.go", "pkg/scsi/scsilumap.go"],
 [("parseLUN decodes the LUN field", "pkg/port/iscsit/cmd.go"), ("AddCommandQueue looks the device up", "pkg/scsi/scsi.go"), ("LUN map", "pkg/scsi/scsilumap.go")],
 MC + "all LUN encodings and all mapping-change histories up to a depth against a map", "model_checking",
 "Exhaustive over LUN bytes and over histories to the depth; contents of every device are compared after every step.")
prop("P06", "Every report of the capacity is true and agrees with what can be used",
 "READ CAPACITY(10), READ CAPACITY(16) and the mode parameter block descriptor report the number of whole blocks of the unit's medium and its configured block size (with FFFFFFFFh where 32 bits do not suffice), and exactly the blocks below the reported count can be read and written. After a resize every report and every range check, on sessions opened before and after, use the new size, and blocks below the old and the new end keep their content.",
 ["inputs", "histories", "configurations"],
 "media sizes around 1 block, partial blocks and the 32-bit limits x block sizes x thin or not; every sequence of resizes up to the depth",
 "Tests ask one 512-byte-block unit of one size; the reports must agree for every size, also after a resize.",
 ["pkg/scsi/sbc.go", "pkg/scsi/spc.go", "pkg/scsi/lun.go", "pkg/scsi/target.go"],
 [("SBCReadCapacity, SBCReadCapacity16", "pkg/scsi/sbc.go"), ("MODE SENSE block descriptor", "pkg/scsi/spc.go"), ("Resize", "pkg/scsi/target.go")],
 MC + "boundary-value product of sizes and all resize histories against arithmetic", "model_checking",
 "Exhaustive over the stated sizes and resize sequences; large media are sparse memory stores.")
prop("P07", "REPORT LUNS lists exactly the units of the target",
 "REPORT LUNS returns, on every session of a target, each LUN the target maps exactly once in the addressing form in which it can be addressed, and nothing else (LUN 0 is always listed); its length field counts the full list and the data is the prefix of the full answer that the allocation length admits. Whatever LUN it lists answers INQUIRY as a connected unit if one is mapped, and no unlisted LUN does.",
 ["inputs", "configurations", "histories"],
 "every subset of a set of LUNs that spans both addressing methods x every allocation length x every SELECT REPORT value, also after run-time changes",
 "Tests see a single LUN; the list has to be right for every set of LUNs and every allocation length.",
 ["pkg/scsi/spc.go", "pkg/scsi/scsilumap.go"],
 [("SPCReportLuns", "pkg/scsi/spc.go")],
 MC + "all LUN subsets x all allocation lengths against the configured set", "model_checking",
 "Exhaustive over subsets of the stated LUN set and over allocation lengths.")
prop("P20", "Every CDB gets one well-formed answer and leaves the unit serving",
 "Any 16 CDB bytes, announced with any data direction and length, to any unit, online or not, or to none, are answered by exactly one SCSI status, either GOOD or CHECK CONDITION with well-formed sense data naming a non-zero key; data comes only with GOOD and only for a command that reads, never more than announced, and the residual accounts for the difference. An operation code the device type does not implement ends with ILLEGAL REQUEST, INVALID COMMAND OPERATION CODE; afterwards the unit, the session and the target serve as before.",
 ["inputs", "configurations"],
 "all 256 operation codes x every CDB byte over boundary and single-bit values (thorough: all values and pairs) x data directions and lengths x online, thin, offline and absent units",
 "The functional tests send well-formed CDBs of about thirty commands; what a stray bit in any byte of any command does is outside any sample.",
 ["pkg/scsi/sbc.go", "pkg/scsi/spc.go", "pkg/scsi/scsi.go", "pkg/port/iscsit/iscsid.go"],
 [("operation tables", "pkg/scsi/sbc.go"), ("BuildSenseData", "pkg/scsi/scsi.go"), ("scsiCommandHandler", "pkg/port/iscsit/iscsid.go")],
 MC + "exhaustive one- and two-byte deviations of every operation code", "model_checking",
 "Every opcode, every byte position; values complete in the thorough tier. Several bytes deviating at once beyond pairs are not covered.")
prop("P21", "A short allocation length or buffer yields the prefix of the full answer",
 "For every command with an allocation length the data returned is the full answer cut to the allocation length and to the expected data transfer length, with the length fields inside it unchanged by the cut, status GOOD, and a residual that accounts for the rest.",
 ["inputs", "configurations"],
 "INQUIRY and every VPD page, MODE SENSE(6/10) for every page and page control, READ CAPACITY, REPORT LUNS, REQUEST SENSE, REPORT SUPPORTED OPERATION CODES x every allocation length from 0 past the full length x expected lengths around it",
 "Tests use comfortable buffers; a wrong cut shows only at particular lengths.",
 ["pkg/scsi/spc.go", "pkg/scsi/sbc.go"],
 [("SPCInquiry, SPCModeSense, SPCReportLuns, SPCRequestSense", "pkg/scsi/spc.go"), ("READ CAPACITY(16)", "pkg/scsi/sbc.go")],
 MC + "every allocation length of every data-in command against the full answer", "model_checking",
 "Exhaustive over the stated commands and lengths; the full answer itself is what P06, P07 and P22 check.")
prop("P22", "What a unit says about itself is well-formed, stable and unique",
 "INQUIRY, VPD and MODE SENSE answers are well-formed: exactly the VPD pages listed by page 00h exist, page, descriptor and header lengths add up, and MODE SENSE(6), MODE SENSE(10), single pages and all-pages agree for every page control. The identification of a unit is the same on every session, target, portal, after reconnects and resets, and differs between devices; ready state, provisioning, port name and port identifier agree with the configuration.",
 ["inputs", "configurations", "histories"],
 "every VPD page code, mode page and sub-page code, page control and DBD x every unit of a configuration with shared devices, several targets and portals, offline and thin units",
 "Multipath and device mapping rely on these answers for every unit and path; tests look at one page of one unit.",
 ["pkg/scsi/spc.go", "pkg/scsi/lun.go", "pkg/scsi/target.go", "pkg/port/iscsit/iscsid.go"],
 [("VPD and standard INQUIRY", "pkg/scsi/spc.go"), ("mode pages", "pkg/scsi/spc.go"), ("NewTarget builds port names", "pkg/port/iscsit/iscsid.go")],
 MC + "every page code on every unit, path and session against structural rules and the configuration", "model_checking",
 "Exhaustive over codes; structure and agreement are checked, not each field's value.")
prop("P08", "Write data is assembled exactly, whatever way it is sent",
 "For a write of any length, however its data is divided into immediate data and Data-Out PDUs, the target requests with R2T exactly the part not sent with the command, in order, without gap or overlap, in bursts of at most the negotiated MaxBurstLength, each R2T naming the command's task tag. When all of it has arrived, and not before, the command is executed on exactly those bytes and answered once; other writes outstanding on the same or another session, also with equal task tags, never get or lose a byte of it.",
 ["inputs", "schedules", "configurations"],
 "every length x immediate part x MaxBurstLength x ImmediateData x segmentation of every burst; every interleaving of the PDUs of two and three outstanding writes on one and two sessions",
 "A test sends data one way; how initiators divide data and interleave tasks is unbounded and a mistake shows as silent corruption.",
 ["pkg/port/iscsit/iscsid.go", "pkg/port/iscsit/cmd.go", "pkg/port/iscsit/conn.go", "pkg/port/iscsit/session.go"],
 [("Data-Out handling and R2T", "pkg/port/iscsit/iscsid.go"), ("R2T in buildRespPackage", "pkg/port/iscsit/conn.go")],
 MC + "all divisions of write data and all PDU interleavings of up to three writes", "model_checking",
 "Exhaustive over a grid of lengths and cut points; data that disagrees with the R2T (wrong offsets) is the initiator's fault and left out.")
prop("P09", "Read data arrives whole, in order, within the negotiated sizes",
 "The data of a read reaches the initiator as Data-In PDUs that start at offset 0, continue without gap or overlap, none longer than the MaxRecvDataSegmentLength the initiator declared, with DataSN counting from 0 and the final flag at the end, followed by or carrying exactly one status; their concatenation is the data of the command cut to the expected length. This holds for every length, negotiated size, order in which the target's tables are walked, and with other reads outstanding.",
 ["inputs", "configurations", "schedules"],
 "every length around every multiple of every declared segment length x MaxBurstLength x read command x expected length x map order; two reads outstanding together",
 "Segmentation errors show only at particular length and size combinations.",
 ["pkg/port/iscsit/iscsid.go", "pkg/port/iscsit/conn.go", "pkg/port/iscsit/login.go", "pkg/port/iscsit/cmd.go"],
 [("txHandler splits the data", "pkg/port/iscsit/iscsid.go"), ("MaxRecvDataSegmentLength", "pkg/port/iscsit/login.go")],
 MC + "all lengths and negotiated sizes against the RFC 7143 Data-In rules", "model_checking",
 "Exhaustive over the stated sizes and lengths.")
prop("P10", "Every request is answered exactly once, by its own task tag",
 "On a session in full feature phase every request that is due an answer gets exactly one, carrying its task tag and of the type its request calls for (a SCSI command its data and one status, a ping its echo, a Text, Logout or task management request its response, a PDU of an unsupported type a Reject with the header of the PDU); requests that are due none (a ping without tag, a command outside the window, an aborted task) get none. This holds in every order and overlap of requests, however the byte stream is cut into packets, and the stream stays a sequence of well-formed PDUs.",
 ["schedules", "histories", "inputs"],
 "every sequence up to the depth over the request alphabet on one connection, delivered PDU by PDU, all at once and cut at every byte",
 "A lost or doubled answer hangs or corrupts an initiator; which overlap provokes it is not what a test can guess.",
 ["pkg/port/iscsit/iscsid.go", "pkg/port/iscsit/cmd.go", "pkg/port/iscsit/conn.go"],
 [("scsiCommandHandler", "pkg/port/iscsit/iscsid.go"), ("iscsiExecTask", "pkg/port/iscsit/iscsid.go"), ("buildRespPackage", "pkg/port/iscsit/conn.go")],
 MC + "all request sequences up to a depth under every delivery against an answer model", "model_checking",
 "Exhaustive over the alphabet to the depth.")
prop("P11", "Command and status numbering follow RFC 7143",
 "On a session StatSN grows by exactly one with each answer that carries a status, starting from the login's, ExpCmdSN is one past the last non-immediate request accepted, and MaxCmdSN never falls behind it or goes back. A non-immediate request whose CmdSN the advertised window admits is served, in the order of the numbers whatever the order of arrival, one outside it is ignored without effect, an immediate one takes no number, and all of it holds across the 32-bit wrap.",
 ["histories", "inputs", "configurations"],
 "every request sequence up to the depth x initial CmdSN and ExpStatSN at 0, mid-range and around the 31- and 32-bit wraps x map orders; a window filled with outstanding writes; writes and reads of several bursts; every order of arrival of the requests, with aborts of those that wait",
 "Wraps and windows need many commands or special starting numbers that tests never use.",
 ["pkg/port/iscsit/iscsid.go", "pkg/port/iscsit/conn.go", "pkg/port/iscsit/session.go"],
 [("acceptCmdSN", "pkg/port/iscsit/iscsid.go"), ("response numbering", "pkg/port/iscsit/conn.go")],
 MC + "all request sequences x wrap-around numbers against a counter model", "model_checking",
 "Exhaustive over the alphabet to the depth and over the stated starting numbers.")
prop("P12", "Nothing is served before login, and login ends right",
 "Until a connection's own login has completed no request on it has an effect and none but Login (and Logout) gets an answer other than Reject, whatever is sent and in whatever order. A login that names an existing target, or discovery, with acceptable authentication completes with a non-zero TSIH; one that names no existing target, an unknown session handle or only authentication the target does not support is refused, and the connection ends. A login request in full feature phase is not processed, a discovery session executes no SCSI command, and other sessions are not disturbed.",
 ["histories", "inputs"],
 "every sequence up to the depth of login steps (stages, flags, names, session handles, session types) and of every request type on a fresh connection, next to an established session",
 "Login is a state machine: what a request does in a state it does not belong to is exactly what tests of the happy path leave out.",
 ["pkg/port/iscsit/iscsid.go", "pkg/port/iscsit/conn.go", "pkg/port/iscsit/session.go", "pkg/port/iscsit/login.go"],
 [("rxHandler dispatches by connection state", "pkg/port/iscsit/iscsid.go"), ("iscsiExecLogin", "pkg/port/iscsit/iscsid.go"), ("BindISCSISession", "pkg/port/iscsit/session.go"), ("processSecurityData, processLoginData", "pkg/port/iscsit/login.go")],
 MC + "all sequences of login and other requests up to a depth against a phase model", "model_checking",
 "Exhaustive over the alphabet to the depth; changes of the names in the middle of a login are not judged beyond safety.")
prop("P13", "Negotiated values follow the result functions and are then used",
 "Every key an initiator offers in login is answered exactly once with the value its RFC 7143 result function gives for the offer and the target's own limit, unknown keys with NotUnderstood and impossible values with Reject or a legal value; declarations are made, not answered. What was agreed is what the session then does (burst and segment lengths, immediate data), and keys not offered keep their defaults, whatever the grouping, order or login stage of the keys.",
 ["inputs", "configurations"],
 "every negotiable key x every value class, all pairs of keys, in one or two requests, with and without security stage x map orders",
 "Tests log in with one initiator's keys; other initiators offer other values and groupings.",
 ["pkg/port/iscsit/login.go", "pkg/port/iscsit/conn.go", "pkg/port/iscsit/session.go", "pkg/util/util.go"],
 [("key conversions and sessionKeys", "pkg/port/iscsit/session.go"), ("processLoginData", "pkg/port/iscsit/login.go")],
 MC + "all keys x value classes and all key pairs against the RFC result functions", "model_checking",
 "Exhaustive over keys, the stated values and pairs.")
prop("P17", "Task management stops exactly the tasks it names",
 "ABORT TASK ends exactly the outstanding task with the referenced tag on that session and reports function complete, or task does not exist if there is none; ABORT TASK SET and LOGICAL UNIT RESET end the session's outstanding tasks of that unit and no others; functions that are not supported say so. An aborted task is never answered afterwards, changes nothing on the medium even if its data still arrives, and its tag can be used again; all other tasks complete as if nothing had happened.",
 ["histories", "schedules"],
 "every set of up to three outstanding writes over two sessions and two units, at every stage of transfer x every function code, unit and referenced tag x every way to continue",
 "Aborts race with data in flight; the interesting cases are combinations of stage, tag and unit.",
 ["pkg/port/iscsit/iscsid.go", "pkg/port/iscsit/session.go"],
 [("task management in scsiCommandHandler", "pkg/port/iscsit/iscsid.go"), ("PendingTasks", "pkg/port/iscsit/session.go")],
 MC + "all task sets x all management functions x all continuations against a task-set model", "model_checking",
 "Exhaustive over the stated sets.")
prop("P14", "No input stops the target or disturbs another session",
 "Whatever bytes arrive on a connection, in whatever state of login it is, and wherever the stream ends, whether by close, reset or silence, and whether or not the peer reads its answers, the process does not crash or hang, new connections can log in and are served, and a session on another connection goes on with its outstanding commands and data intact. A connection whose PDU was framed right is either closed or goes on answering the requests that follow.",
 ["inputs", "crash_points", "histories"],
 "six connection states x all 64 PDU types x immediate or not x body or none x every header byte over boundary and single-bit values (thorough: pairs); every prefix of a session's byte stream x every way to end; stalled peers for every kind of answer",
 "One stray byte from one initiator must not take the target away from all others; which byte in which state is beyond any sample.",
 ["pkg/port/iscsit/iscsid.go", "pkg/port/iscsit/cmd.go", "pkg/port/iscsit/conn.go", "pkg/port/iscsit/login.go", "pkg/util/util.go"],
 [("rxHandler, handler", "pkg/port/iscsit/iscsid.go"), ("parseHeader", "pkg/port/iscsit/cmd.go"), ("closeSession", "pkg/port/iscsit/session.go")],
 MC + "all one- and two-byte deviations of every PDU type in every connection state, all truncations, all stalls", "model_checking",
 "Exhaustive over the stated deviations; several PDUs malformed in a row only as far as one world takes all probes of a type one after the other.")
prop("P15", "Discovery tells exactly what is configured, and what it tells works",
 "SendTargets=All in a discovery session lists every configured target exactly once, each followed by exactly its portals with their portal group tags (or the cluster address with each tag when one is set); a name lists exactly that target, an unknown name nothing, the empty value in a normal session the session's own target. The answer arrives in PDUs no longer than the initiator accepts. A login to a target succeeds through exactly the portals listed for it, reports that portal's group tag, and reaches that target.",
 ["configurations", "inputs"],
 "configurations of up to three targets over six portal group layouts x cluster address x session type x SendTargets values x receive limits x map orders; lists of up to 400 targets",
 "Tests discover one target on one portal; what is listed has to be right for every configuration and list length.",
 ["pkg/port/iscsit/iscsid.go", "pkg/port/iscsit/iscsit.go", "pkg/config/config.go"],
 [("iscsiExecText", "pkg/port/iscsit/iscsid.go"), ("NewTarget, AddiSCSIPortal", "pkg/port/iscsit/iscsid.go"), ("FindTPG", "pkg/port/iscsit/iscsit.go")],
 MC + "all small configurations x all requests against the configuration", "model_checking",
 "Exhaustive over the stated layouts and values.")
prop("P16", "Sessions begin and end exactly as their logins and connections say",
 "A login with handle 0 starts a new session with a handle no other live session has, and ends exactly the session the same initiator port (name and ISID) had with that target; a login with the handle of a live session of that port takes its connection over and the session goes on without the tasks of the old connection, any other handle is refused. A session that ends, by logout, close, reset, reinstatement or a login that fails, takes its outstanding tasks with it without effect, leaves every other session alone and frees its handle, so that logins never run out.",
 ["histories", "fault_sequences"],
 "every sequence up to depth 4 (thorough 5) of logins, half logins, reinstatements, wrong handles, logout, close, reset and writes over three connections, three ports and two targets; 66000 sessions in a row for each of twelve ways to end",
 "Reinstatement and cleanup go wrong only in particular orders, and a leak shows only after tens of thousands of logins.",
 ["pkg/port/iscsit/session.go", "pkg/port/iscsit/iscsid.go"],
 [("BindISCSISession, ReInstatement, takeOver, closeSession", "pkg/port/iscsit/session.go"), ("AllocTSIH, ReleaseTSIH", "pkg/port/iscsit/iscsid.go")],
 MC + "all session histories up to a depth against a session table, and exhaustion of the handle space", "model_checking",
 "Exhaustive over the alphabet to the depth.")
prop("P27", "Overlapping logins, logouts and closes keep the session table consistent",
 "Whatever logins, connection and session reinstatements, logouts, closes and resets overlap in time on any number of connections, once they are done the target's session tables, its I_T nexuses and its pool of session handles hold exactly the sessions whose logins succeeded and that nothing ended, no two of them with the same handle or the same initiator port on one target. No two of the steps touch the same state unordered, nothing deadlocks, and later logins work.",
 ["schedules"],
 "every interleaving, up to a bound on deviations from run-to-completion order, of the target's own goroutines at every lock, map access and shared-field store, in twelve scenarios of two or three connections",
 "The windows between reading and changing a session table are a few instructions wide; tests never land in them.",
 ["pkg/port/iscsit/session.go", "pkg/port/iscsit/iscsid.go", "pkg/scsi/target.go"],
 [("BindISCSISession, takeOver, closeSession", "pkg/port/iscsit/session.go"), ("AllocTSIH, ReleaseTSIH", "pkg/port/iscsit/iscsid.go"), ("AddITNexus, RemoveITNexus", "pkg/scsi/target.go")],
 "stateless model checking of the real code: all schedules within a deviation bound under a controlled scheduler, with race and deadlock detection", "exploration",
 "Exhaustive within the bound on deviations per scenario; the scheduling points are the instrumented operations (locks, shared maps, shared fields, store calls, connection writes).")
prop("P28", "Concurrent commands take effect one at a time",
 "Commands that sessions issue at the same time against the same or different units have results and leave a medium as if they had been executed one after the other in some order consistent with their answers (per block for plain writes; OR-WRITE as a whole); every one is answered once, with its own data, counters count every one, and an abort in one session touches no task of another. No two of them touch the target's own state unordered and nothing deadlocks.",
 ["schedules"],
 "every interleaving, up to a bound on deviations from run-to-completion order, at every lock, map access, shared-field store and store call, in sixteen scenarios of two or three sessions (units in memory, in files and remote), each outcome checked for a sequential explanation",
 "Tests run one command at a time, and a stress test sees a handful of the interleavings.",
 ["pkg/port/iscsit/iscsid.go", "pkg/port/iscsit/session.go", "pkg/scsi/sbc.go", "pkg/scsi/target.go", "pkg/scsi/lun.go"],
 [("scsiCommandHandler", "pkg/port/iscsit/iscsid.go"), ("iscsiTaskQueueHandler", "pkg/port/iscsit/iscsid.go"), ("AddCommandQueue", "pkg/scsi/target.go"), ("SBCReadWrite", "pkg/scsi/sbc.go"), ("luPerformCommand", "pkg/scsi/lun.go")],
 "stateless model checking of the real code: all schedules within a deviation bound under a controlled scheduler, with linearizability, race and deadlock checks", "exploration",
 "Exhaustive within the bound on deviations per scenario.")
prop("P29", "Management and I/O at the same time act as if one after the other",
 "Adding, removing and remapping units, rereading the unit maps, resizing, adding devices and targets, listing targets and closing the service may overlap with each other and with commands, logins and discoveries: every command sees each unit and its size either from before or from after an operation, writes land wholly on one device, a target appears in discovery and logins with all its portals or not at all, and of two operations that exclude each other exactly one succeeds. No two of them touch the same state unordered, nothing crashes or deadlocks, and after Close the service accepts no new connection.",
 ["schedules"],
 "every interleaving, up to a bound on deviations from run-to-completion order, at every lock, map access, shared-field store and store call, in eighteen scenarios of management operations against commands, logins, discoveries and each other",
 "Administration happens while initiators are busy; the windows in which maps and sizes change are a few instructions wide.",
 ["pkg/scsi/scsilumap.go", "pkg/scsi/scsi.go", "pkg/scsi/target.go", "pkg/port/iscsit/iscsid.go"],
 [("AddLUNMapping, DelLUNMapping, AddBackendStorage", "pkg/scsi/scsilumap.go"), ("RereadTargetLUNMap, NewSCSITarget", "pkg/scsi/target.go"), ("Resize, GetTargetList", "pkg/scsi/scsi.go"), ("NewTarget, Run, Close", "pkg/port/iscsit/iscsid.go")],
 "stateless model checking of the real code: all schedules within a deviation bound under a controlled scheduler, with linearizability, race and deadlock checks", "exploration",
 "Exhaustive within the bound on deviations per scenario.")
prop("P23", "In single-host mode only one host at a time is served",
 "With multiple-host login blocked, a connection is served exactly if no other host has an open connection: a host may open any number of connections, another host's connection is closed unanswered until the last one of the first host has ended (by logout, failed login, close or reset), and is served from then on. Established connections are never dropped by it, IPv4 and IPv6 hosts are told apart, and without the mode every host is served.",
 ["histories", "configurations"],
 "every sequence up to depth 5 (thorough 6) of connects from four hosts, full, half and refused logins, logout, close and reset over up to three open connections, with and without the mode",
 "Tests have one host; who is let in depends on the history of connections of all hosts.",
 ["pkg/port/iscsit/iscsid.go"],
 [("Run admits connections", "pkg/port/iscsit/iscsid.go"), ("leaveHost", "pkg/port/iscsit/iscsid.go"), ("EnableBlockMultipleHostLogin", "pkg/port/iscsit/iscsid.go")],
 MC + "all connection histories up to a depth against the set of connected hosts", "model_checking",
 "Exhaustive over the alphabet to the depth.")
prop("P24", "The configuration saved, loaded and served is one and the same",
 "What Save writes is exactly what Load returns; a crash or a failing file operation during Save leaves the whole old or the whole new configuration at the path, success is reported only when the new one is in place and durable, and nothing else is left behind; a damaged file is refused by Load. A service brought up from a configuration serves exactly its targets, portal groups, LUNs, sizes and block sizes; one that makes no sense (device, LUN or group given twice, unknown device, portal or backend, number out of range) is refused without a crash and without a half-registered target.",
 ["inputs", "crash_points", "fault_sequences", "configurations"],
 "all small configurations; every file operation of a replacement failing and every crash point, unsynced data whole, torn or lost; every prefix, one-byte change and deletion of a configuration file; all single and pairs of configuration mistakes from a catalogue",
 "Tests load one good file; the property is about every content, every crash point and every mistake.",
 ["pkg/config/config.go", "pkg/scsi/scsilumap.go", "pkg/scsi/lun.go", "pkg/port/iscsit/iscsid.go"],
 [("Save, Load", "pkg/config/config.go"), ("InitSCSILUMap, AddLUNMapping", "pkg/scsi/scsilumap.go"), ("NewSCSILu", "pkg/scsi/lun.go"), ("NewTarget", "pkg/port/iscsit/iscsid.go")],
 MC + "all file operations and crash points of Save, all small changes of a configuration, compared with an independent reading of it", "model_checking",
 "Exhaustive over the stated sets; crash states are built from the file operations the code performs (the durable content of a file is what it held when last synced).")
prop("P18", "A reserved unit is used by one session only",
 "RESERVE(6) grants a unit to one session; until then every command of another session that reads or changes the medium, through whichever target the device is mapped, ends with RESERVATION CONFLICT and has no effect, while INQUIRY, REPORT LUNS and REQUEST SENSE never do. RELEASE by the holder, LOGICAL UNIT RESET and the end of its session (logout, close, reset, reinstatement) free the unit, and a RELEASE by anyone else does nothing. Of sessions that reserve at once exactly one succeeds.",
 ["histories", "schedules"],
 "all sequences to depth 3 (thorough 4) of reserve, release, reset and session ends by three sessions over two units, one of them in two targets, every kind of access by every session after each; all schedules within two (three) deviations of the concurrent ones",
 "Clusters rely on it for fencing: an exclusion that fails after one particular history of session ends corrupts a disk.",
 ["pkg/scsi/spc.go", "pkg/scsi/target.go", "pkg/scsi/lun.go", "pkg/port/iscsit/session.go"],
 [("SPCReserve, SPCRelease", "pkg/scsi/spc.go"), ("reservedLUs, ResetLUN", "pkg/scsi/target.go"), ("luPerformCommand", "pkg/scsi/lun.go"), ("UnBindISCSISession", "pkg/port/iscsit/session.go")],
 MC + "all histories of reservations and session ends up to a depth against the holder of each device, and all schedules within a deviation bound", "model_checking",
 "Commands that had begun when the RESERVE was granted may finish; TEST UNIT READY and READ CAPACITY are not covered.")
prop("P19", "Persistent reservations follow SPC-4",
 "Registrations and the reservation belong to initiator ports (name and ISID) and a unit; PERSISTENT RESERVE OUT registers, reserves, releases, clears and preempts as SPC-4 5.12 lays down, both outlast sessions and LOGICAL UNIT RESET, and a refused or malformed one changes nothing. PERSISTENT RESERVE IN reports keys, generation and reservation, truncated to the allocation length. A command the type of reservation excludes ends with RESERVATION CONFLICT without effect, no other does, RESERVE is refused while ports are registered, and overlapping PERSISTENT RESERVE OUTs act in some order.",
 ["histories", "inputs", "schedules"],
 "every state of registrations and reservation of three ports that can be reached, each PERSISTENT RESERVE OUT of an alphabet of service actions, keys and types from each, every kind of access by every port in each, every allocation length of PERSISTENT RESERVE IN, all schedules within two (three) deviations of pairs",
 "The state machine has some hundred states and thousands of edges, of which a test walks a few; cluster software relies on all.",
 ["pkg/scsi/spc.go", "pkg/scsi/target.go", "pkg/scsi/lun.go"],
 [("SPCPRReadKeys, SPCPRReadReservation", "pkg/scsi/spc.go"), ("SPCPRRegister, SPCPRReserve, SPCPRRelease, SPCPRClear, SPCPRPreempt", "pkg/scsi/spc.go"), ("reservationConflict", "pkg/scsi/target.go"), ("luPerformCommand", "pkg/scsi/lun.go")],
 MC + "every reachable state and transition of the reservation state machine, replayed on the implementation, and all schedules within a deviation bound", "model_checking",
 "REGISTER AND MOVE only as far as that a port which does not hold the reservation cannot move it; SPEC_I_PT, READ FULL STATUS, PREEMPT AND ABORT and unit attentions are outside.")
prop("P26", "The statistics are the exact account of the commands answered",
 "With statistics switched on, Stats() counts each SCSI command exactly once, under its operation code, when it is answered, whether it succeeds or fails and however many PDUs it takes, and nothing else (no NOP, text, task management or login, no aborted task). The read and write counters (READ and WRITE of 6, 10, 12 and 16 bytes) have the number of these commands, the sum of the lengths the initiator asked for, and the sum of the times from each command's arrival to its answer, also where tasks of one or several sessions overlap. The caller gets a copy, and with statistics off nothing is counted.",
 ["histories", "inputs"],
 "all sequences to depth 3 (thorough 4) over 29 steps: reads and writes of each form on two sessions with immediate, interleaved and solicited data, delays in the store and on the network, failing and other commands, requests that are no commands, aborts and reconnects; all 256 operation codes",
 "No test switches statistics on; accounting goes wrong where tasks overlap, take several PDUs, fail or are aborted.",
 ["pkg/port/iscsit/iscsid.go", "pkg/port/iscsit/conn.go", "pkg/scsi/drivers.go"],
 [("UpdateStats, Stats", "pkg/port/iscsit/iscsid.go"), ("buildRespPackage copies a task's start and length", "pkg/port/iscsit/conn.go")],
 MC + "all histories of commands up to a depth against exact counters under a virtual clock", "model_checking",
 "Times are exact because the clock of the explored system is virtual. IsClientConnected is only required to be true once commands were answered.")
prop("P30", "The management interface lists the targets and sessions there are",
 "At every moment GET /target/list, with any version prefix or none, answers 200 with a JSON array that has each configured target once, with its portal groups, and exactly one I_T nexus for each normal session logged in to it: none for sessions that ended or were reinstated, nor for discovery, refused or unfinished logins, and each with an id of its own that does not change. A name query selects the target of that name. The client library and `gotgt list target`, of any version, obtain and show the same, and no request for another path or method changes anything or keeps later requests and sessions from being served.",
 ["histories", "inputs", "configurations"],
 "all histories to depth 4 (thorough 5) over 17 steps of logins, session ends, discovery, refused and unfinished logins and new targets, listing after each step; every set of targets and portal groups; every method x path x version x name",
 "No test starts the management interface with sessions; the list must be right after every history, and the interface works only if client and server agree on paths.",
 ["pkg/apiserver/apiserver.go", "pkg/apiserver/router/target/target.go", "pkg/api/client/client.go", "pkg/api/client/target_list.go", "cmd/list.go", "pkg/scsi/scsi.go", "pkg/port/iscsit/session.go"],
 [("routes and version prefix", "pkg/apiserver/apiserver.go"), ("getTargetList", "pkg/apiserver/router/target/target.go"), ("GetTargetList copies the nexus map", "pkg/scsi/scsi.go"), ("BindISCSISession, UnBindISCSISession", "pkg/port/iscsit/session.go")],
 MC + "all histories of logins and session ends up to a depth with the list asked for over HTTP after each step", "model_checking",
 "The HTTP server and clients are the real ones over an in-memory network. The create, remove and other routes are stubs and only required to do no harm.")
