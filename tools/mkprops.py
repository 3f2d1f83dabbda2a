"""Writes properties.jsonl (kept as a program so that the text stays easy to edit)"""
import json, os
M, T, R, O = "modbus_tk/modbus.py", "modbus_tk/modbus_tcp.py", "modbus_tk/modbus_rtu.py", "modbus_tk/modbus_rtu_over_tcp.py"
H, U, S, C, P = "modbus_tk/hooks.py", "modbus_tk/utils.py", "modbus_tk/simulator.py", "modbus_tk/simulator_rpc_client.py", "modbus_tk/pymodbusclient.py"
X = "modbus_tk/exceptions.py"
PROPS = []

def prop(pid, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (pid, len(title))
    PROPS.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

MEM = ("Slave memory", "the blocks of each type and their values", M + " Slave._memory, ModbusBlock._data")

prop("C01", "A read returns exactly the stored values of the addressed range",
 "A request to read coils, discrete inputs, holding registers or input registers whose range lies inside one block and whose quantity is within the protocol limits (1..2000 bits, 1..125 registers) is answered with exactly the current values of the addressed items, in order and in the encoding of the protocol (bits packed from the least significant one and padded with zeros, registers big-endian, for unsigned and signed slaves alike). It changes no value.",
 ["inputs", "configurations"], "every block layout, every stored content, every (type, address, quantity) in the limits, signed and unsigned slaves",
 "The tests read a handful of ranges with a few contents; off-by-one, bit packing and block selection faults hide at other alignments, quantities and layouts.",
 [M], [("bit packing", M + " Slave._read_digital"), ("register packing", M + " Slave._read_registers"), ("block lookup", M + " Slave._get_block_and_offset")],
 ["Slave.handle_request", "Databank.handle_request", "responses on the wire"], [MEM])

prop("C02", "A write stores exactly the sent values at the addressed items, nothing else",
 "Accepted requests to write one or several coils or registers, to mask a register or to read/write multiple registers store exactly the transmitted values at the addressed items and leave every other item of every block and slave as it was; the answer is the one the protocol defines. The mask write gives (current AND and_mask) OR (or_mask AND NOT and_mask), read/write multiple writes before it reads, and 16-bit values are kept as signed numbers in a signed slave and as unsigned ones otherwise.",
 ["inputs", "histories"], "every accepted write request, in every history of writes, on every layout, signed and unsigned",
 "The tests write a few values and read the same range back; a write which also touches a neighbour, or is wrong for some bit count, mask, sign or overlap of the read and written ranges, passes them.",
 [M], [("writes", M + " Slave._write_* , _mask_write_register, _read_write_multiple_registers")], ["Slave.handle_request", "Slave.get_values"], [MEM])

prop("C03", "A request that cannot be served gets an exception code and changes nothing",
 "A request with an unknown function (of 1 to 127), a quantity, byte count or value outside of what the protocol allows, a range that is not entirely inside one block, or fewer bytes than it announces is answered with its function code + 0x80 and an exception code for an error that applies (1 illegal function, 2 illegal data address, 3 illegal data value, or 3/4 when it is truncated), whatever its bytes are. It leaves every value unchanged, never applied in part, and the limits themselves are accepted.",
 ["inputs"], "every byte string as a request pdu, in particular one step beyond and at each limit, and each valid request cut at any byte",
 "The tests try a few bad quantities and addresses; they never cut a request, never look at the memory after a rejection, and skip most limits.",
 [M], [("validation", M + " Slave._read_*, _write_*"), ("exception to response", M + " Slave.handle_request, Databank.handle_request")], ["responses", "memory before and after"], [MEM])

prop("C04", "Blocks of a type never overlap, names and ids are unique, refusals are clean",
 "After any sequence of add and remove operations the blocks of one type of a slave never overlap, block names are unique in a slave and slave ids (1..255) are unique in a server. An operation is refused with its documented exception exactly when it would break this or is invalid (overlap, duplicated name or id, missing name or id, size <= 0, negative address, unknown type, id out of range), and a refused operation changes nothing. An accepted one takes effect at once for local access and for requests: removed blocks and slaves are gone, new blocks read as zeros.",
 ["histories", "inputs"], "every sequence of add_block, remove_block, remove_all_blocks, add_slave, remove_slave, remove_all_slaves, get_slave with any arguments",
 "The tests use a few layouts inserted in a few orders; the overlap check depends on the order of insertion and on the whole set of blocks.",
 [M], [("overlap check", M + " Slave.add_block, ModbusBlock.is_in"), ("registry", M + " Slave._blocks, Databank._slaves")], ["exceptions", "get_values", "requests on every address"], [MEM])

prop("C05", "Local access and requests see one and the same memory",
 "Values set by the application are what a following request reads and values written by a request are what the application reads, for slaves with their own memory and for slaves and block types which share one memory map. Local access is checked against the limits of the named block (an access out of the block raises OutOfModbusBlockError and changes nothing, an unknown name raises MissingKeyError), a scalar writes one item and a sequence one item per value, and the values returned are a snapshot which later writes do not change.",
 ["histories", "configurations"], "every interleaving of local and network accesses, with private and shared memories",
 "The tests set then read one way at a time with fixed ranges; they do not mix both ways in histories, nor check the limits of the block on each side, nor the shared memory beyond one example.",
 [M], [("set/get", M + " Slave.set_values, get_values"), ("shared memory", M + " Slave.__init__(memory=)")], ["get_values", "responses"], [MEM])

prop("C06", "Every operation on a slave is atomic under concurrency",
 "Whatever the number of threads which call the local operations of a slave and of servers which execute requests on it, the results are those of some sequential order of the operations that respects real time: no read sees half of a multiple write, no mask write or read/write is lost or interleaved, and adding or removing blocks is seen entirely or not at all.",
 ["schedules"], "every interleaving of set_values, get_values, block operations and requests in several threads",
 "The tests are single-threaded on each slave; a missing lock only shows in particular interleavings.",
 [M], [("data lock", M + " Slave._data_lock"), ("locked operations", M + " Slave.handle_request, add_block, remove_block, set_values, get_values")], ["call and return events of the operations"], [MEM])

prop("C07", "A request acts on the slave it names, and on no other",
 "A request addressed to slave N (1..255) is executed by slave N of the server and by no other one, and the answer carries the address N; requests for one slave never change or reveal the values of another one. When the server has no slave N nothing is executed and nothing is answered, whether or not missing slaves are errors for the server (error_on_missing_slave, given to the databank or to the server, only tells if such a request is logged as an error), and this also holds while slaves are added and removed by other threads: each request sees the slave either there or not.",
 ["inputs", "schedules", "configurations"], "every slave id, every set of slaves, with slaves coming and going, over TCP and RTU framing",
 "The tests use two slaves that never change.",
 [M, T, R], [("lookup", M + " Databank.handle_request, get_slave"), ("unit id", T + " TcpQuery"), ("address", R + " RtuQuery")], ["responses", "values of every slave"])

prop("C08", "A broadcast is executed once by every slave and never answered",
 "A write request sent to address 0 is executed exactly once by every slave which is in the server, with the effect it would have when sent to that slave alone, even when some of the slaves refuse it. No broadcast is ever answered, valid or not, read or write, and slaves being added or removed meanwhile do not prevent the others from executing it.",
 ["inputs", "configurations", "schedules"], "every set of slaves with different layouts, every request pdu, concurrent add/remove of slaves",
 "The broadcast tests of the repository fail at the pinned commit or use two identical slaves; failures of one slave and concurrent changes are not tried.",
 [M], [("broadcast", M + " Databank.handle_request"), ("no answer", M + " Slave.handle_request(broadcast=True)")], ["responses", "values of every slave"])

prop("C09", "The TCP server answers each request once, in order, with its own header",
 "On each connection, every complete request to an existing slave is answered exactly once and in the order of the requests, with the transaction id, protocol id and unit id of its request and a length field equal to the bytes that follow. This holds for any way the bytes are cut into segments or several requests are sent at once, for any number of simultaneous connections, and no connection receives bytes meant for another one.",
 ["inputs", "schedules", "histories"], "every segmentation (down to one byte at a time, pauses shorter than the timeout of the server) and pipelining, many connections",
 "The tests send one well-formed request at a time through the master of the library.",
 [T], [("framing", T + " TcpServer._do_run"), ("header", T + " TcpMbap, TcpQuery")], ["bytes on the connections"])

prop("C10", "A misbehaving TCP client harms neither the server nor the other clients",
 "Whatever a client does (garbage, wrong lengths, half frames, disconnections at any byte, resets, connecting without sending, not reading, many connections, or connections made when the process has no file descriptor left), the server keeps answering the other clients correctly within a bounded time, keeps accepting new ones once descriptors are available, changes no value without a complete valid request, and releases the connections which have ended.",
 ["fault_sequences", "inputs"], "every sequence of client faults around well-behaved clients, including failing accept calls",
 "The tests only use well-behaved clients.",
 [T], [("per-connection error handling", T + " TcpServer._do_run"), ("listening socket", T + " TcpServer._do_init")], ["answers to the well-behaved clients", "open file descriptors", "values of the slaves"])

prop("C11", "The TCP master only returns the answer to its own request",
 "Master.execute over TCP returns values only when they were received in a complete response with the transaction id, protocol id, unit id, length and function code of its own request; anything else (late, duplicated or unsolicited frames, wrong fields, truncated data, closed connection, silence) ends in an exception within a time bounded by the timeout. Data left by an earlier exchange is never taken for the answer, and after any such failure the next exchange with a well-behaved slave succeeds, reconnecting if needed.",
 ["fault_sequences", "inputs", "histories"], "every sequence of well-formed, corrupted, late, duplicated and missing responses and of disconnections",
 "The tests talk to the server of the library, which always answers properly.",
 [T, M], [("header check", T + " TcpMbap.check_response"), ("flush and reconnect", T + " TcpMaster._send, flush_socket"), ("response analysis", M + " Master.execute")], ["result or exception of execute against the bytes the peer sent"])

prop("C12", "The master encodes requests and decodes responses as the protocol says",
 "For every supported function and all valid arguments the request sent by Master.execute is the one the protocol defines (numbers big-endian, bits packed from the least significant one, negative values as two's complement), and the value returned for every valid response is exactly the tuple of items it carries (as many bits as asked, the registers, the echoed address and value or quantity, the records of a file, the sub-function and data of a diagnostic), also when data_format and expected_length tell that the items of a device are wider than the ones of the protocol. An exception response raises ModbusError with the code of the slave (also told by its message), and a response with an inconsistent byte count or a wrong function code raises ModbusInvalidResponseError.",
 ["inputs"], "every function, argument and response content, on TCP, RTU and RTU over TCP masters",
 "The tests compare a few requests; they do not cover each count of bits, negative values, file records, diagnostics or malformed responses.",
 [M], [("request building and response parsing", M + " Master.execute")], ["bytes sent", "values returned or exceptions raised"])

prop("C13", "RTU frames carry the right CRC and every corrupted frame is rejected",
 "The CRC of every frame the library sends is the Modbus CRC-16 of its bytes, low byte first. A received request or response is accepted only when its last two bytes are that CRC of all the others: each frame in which 1, 2 or an odd number of bits or any burst of up to 16 bits were changed, or with fewer than 3 bytes, is rejected (ModbusInvalidRequestError or ModbusInvalidResponseError when parsed). A response from another address than the one requested is never accepted, and intact frames always are.",
 ["inputs"], "every frame and every such corruption of it",
 "The tests check the CRC on a few frames and corrupt a few of them.",
 [U, R], [("crc", U + " calculate_crc"), ("check", R + " RtuQuery.parse_request, parse_response")], ["RtuQuery.build_request, build_response, parse_request, parse_response"])

prop("C14", "The RTU server executes and answers intact frames only, once each",
 "On a serial line the server executes each intact frame addressed to one of its slaves exactly once and writes exactly one response with the right address and CRC, however the bytes of the frame are split by the driver; corrupted, truncated, oversized or foreign frames are neither executed nor answered. It does not write its response when a new request has already begun to arrive, and it keeps serving after any noise, read error, write error or reopening of the port.",
 ["inputs", "fault_sequences"], "every sequence of frames, noise, chunking, silence and serial errors",
 "The functional tests of RTU need real serial ports and do not run.",
 [R], [("frame assembly", R + " RtuServer._do_run"), ("pending request", R + " RtuServer._do_run in_waiting")], ["bytes written on the port", "values of the slaves"])

prop("C15", "The RTU master returns only an intact answer from the slave it asked",
 "Master.execute on a serial line returns values only when they were received after its request, from the requested address, for the requested function and with a right CRC, however the driver splits the bytes and whether or not the adapter echoes the request (local echo handling on); stale input, corrupted, truncated or foreign responses and silence end in an exception within a bounded number of reads. Exception responses raise ModbusError, and the next exchange after a failure succeeds.",
 ["inputs", "fault_sequences", "histories"], "every response, chunking, stale input, echo and fault, with and without expected length and software timeout",
 "The functional tests of RTU need real serial ports and do not run.",
 [R, M], [("reception", R + " RtuMaster._recv"), ("input reset and echo", R + " RtuMaster._send"), ("check", R + " RtuQuery.parse_response")], ["result or exception of execute"])

prop("C16", "The RTU over TCP master is bounded and returns only intact answers",
 "Master.execute of RtuOverTcpMaster returns values only when they were received in a response with the right address, function and CRC, for any segmentation of the stream; exception responses raise ModbusError without waiting for more bytes, and a corrupted, short or missing response or a closed connection ends in an exception in a bounded time. Data left by an earlier exchange is never taken for the answer and the next exchange succeeds.",
 ["inputs", "fault_sequences"], "every response, segmentation and fault of the peer",
 "There is no test of this master.",
 [O, R], [("reception", O + " RtuOverTcpMaster._recv")], ["result or exception of execute"])

prop("C17", "Threads sharing a master each get the answer to their own request",
 "When several threads use the same master at the same time, each exchange is complete on the line before the next one starts: requests and responses never interleave, and every caller gets the values its own request asked for, or its own error. A failed exchange of one thread does not disturb the others and never leaves the master locked.",
 ["schedules", "fault_sequences"], "every interleaving of threads calling execute on one master, with errors in some of the exchanges",
 "The tests use a master from one thread.",
 [M, U], [("one exchange at a time", U + " threadsafe_function on Master.execute")], ["frames on the line", "results of each thread"])

prop("C18", "Transaction ids are unique among threads, on 16 bits, and roll over",
 "The transaction ids of successive TCP requests, built by any number of masters and threads, are all different in any window of 65535 consecutive requests, always fit in 16 bits, and keep working when they roll over.",
 ["schedules", "histories"], "every interleaving of request constructions in threads, across the roll-over",
 "A test checks the increment and one roll-over in a single thread.",
 [T], [("counter", T + " TcpQuery._get_transaction_id")], ["ids in the requests"])

prop("C19", "A server can be started, stopped and restarted at any time",
 "After stop() returns the server thread has ended, its port or sockets are released and no request is executed any more; after start() it serves requests again with the data kept, any number of times, whatever the traffic and whenever stop() is called (right after start(), while idle, in the middle of a request or of a burst). stop() always returns in a bounded time and is harmless on a server that is not running; a server which failed to start (port already in use), or whose thread was ended by an error or an exit raised by a hook, releases its port and can be started again later. A TCP server is reached by the address it is given only (by all the addresses of the machine by default), so that servers of several addresses may have the same port.",
 ["schedules", "histories", "fault_sequences"], "every sequence of start and stop against every timing of the server thread and of the traffic",
 "The tests start and stop a server a few times without traffic.",
 [M, T, R], [("start/stop", M + " Server.start, stop, _run_server"), ("RTU stop", R + " RtuServer.stop"), ("release", T + " TcpServer._do_exit")], ["thread ended", "port free", "answers"])

prop("C20", "Hooks are called in order, may substitute data, and may fail",
 "The functions installed on a hook are called in the order of installation at each occurrence of the event, with the arguments documented, until one returns something else than None; for the hooks documented to modify a request or a response that value replaces the data. Uninstalled functions are not called any more, installing and uninstalling from any thread or from a hook itself is safe, and a ModbusError raised in the request hook of a slave is answered as that exception code, any other exception as a slave device failure in a well-formed frame. A hook of the TCP server may close the connection it is called for, or others: the server goes on serving the other clients and the new ones. An error of a connection or of a request on the line (an exception of another hook of the server, for example) is told once to the on_error hook of the server with that exception, and one which prevents the server from starting or from closing its port to modbus.Server.on_exception.",
 ["histories", "schedules", "inputs"], "every sequence of install, uninstall and calls, concurrently and from hooks, for the documented hooks",
 "The tests install one hook at a time.",
 [H, M, T, R], [("registry", H + " install_hook, uninstall_hook, call_hooks"), ("substitution", M + " Master.execute, Server._handle, Slave.handle_request")], ["calls of the hooks", "bytes exchanged"])

prop("C21", "Observing the traffic does not change it",
 "Turning on verbose mode, any logging level with any of the provided loggers, or hooks which only look at the data never changes the bytes exchanged, the values stored, the results or the errors of masters, slaves and servers, for any request, valid or not, including broadcasts and unanswered requests.",
 ["inputs", "configurations"], "every combination of verbose, loggers and observing hooks, for every request and response",
 "The tests never compare runs with and without observation.",
 [M, U, T, R], [("verbose logging", M + " Master.execute, Server._handle; " + U + " get_log_buffer"), ("loggers", U + " create_logger")], ["bytes and results of twin runs"])

prop("C22", "Each simulator command is executed once and answered to its sender",
 "Each command sent to the simulator on the RPC interface or the console is executed exactly once, in the order received, and its sender (and only it) gets one answer: '<command> done: <result>' with the true result, '<command> error: <reason>' without any effect on the slaves, or an unknown command error. The commands act on the same slaves and blocks as the requests of the servers, and the RPC client returns the results as typed values, for any number of values and of concurrent clients.",
 ["inputs", "histories", "schedules"], "every sequence of commands, valid or not, of any length, from concurrent RPC clients and the console",
 "There is no test of the simulator.",
 [S, C], [("command loop", S + " Simulator._handle"), ("RPC", S + " RpcHandler; " + C + " SimulatorRpcClient"), ("console", S + " ConsoleInterface")], ["answers", "values read through requests"])

prop("C23", "A worker thread runs init, then its loop until stop, then exit, once each",
 "A WorkerThread calls its init function once before its main function, its main function again and again one call at a time until stop() is called or a call fails, and its exit function exactly once at the end in every case, all in the same thread with the given arguments. stop() returns only when the thread has ended and nothing is called after that, whenever it is called.",
 ["schedules", "fault_sequences"], "every timing of start and stop and every failing function",
 "There is no test of WorkerThread.",
 [U], [("worker", U + " WorkerThread")], ["calls of the functions"])

prop("C24", "Typed values survive a round trip through registers",
 "Values written to holding registers by a master with a struct data format (integers and floats of 2, 4 or 8 bytes, any mix and byte order) are read back unchanged by a master with the same format, each 16-bit word being in the register the format implies; bits and signed or unsigned words written by any write function are read back unchanged by the corresponding reads.",
 ["inputs"], "every format and value, through any of the masters and servers",
 "The tests use a few floats and words.",
 [M], [("data_format", M + " Master.execute")], ["values read back", "registers of the slave"])

prop("C25", "Servers sharing a databank serve the same slaves, each on its own line",
 "Servers which share a databank (as the composite server of the simulator: TCP and RTU) see the same slaves and values: a write received by one is read by the others, slaves and blocks added or removed through any of them or through the composite are seen by all, and each answers only on its own line in its own framing. Starting, stopping and verbosity of the composite apply to each of its servers, and concurrent traffic on all of them keeps each operation atomic.",
 ["schedules", "configurations"], "every mix of concurrent requests through the servers and local operations",
 "There is no test with several servers.",
 [S, M], [("shared databank", S + " CompositeServer; " + M + " Server.__init__(databank=)")], ["responses of each server"])

prop("C26", "Hooks, slaves and servers never deadlock",
 "Threads which serve requests, use the local operations of slaves and of the databank, and install, uninstall or run hooks that themselves call operations of the slave being accessed, of the databank or of the hooks, always make progress: no combination of them waits for each other for ever. A hook of a master may use another master.",
 ["schedules"], "every interleaving of these operations, with hooks that call the library back",
 "A deadlock needs two threads at two particular places.",
 [H, M, U], [("lock ordering", H + " call_hooks; " + M + " Slave._data_lock, Databank._lock")], ["threads blocked"])

prop("C27", "Registers served over the network are linearizable",
 "Values read and written over TCP by any number of masters, while the application uses the same slave locally, form a linearizable history: every read returns the last value written before it, and multi-item writes appear at once, also when connections are lost (an exchange that failed may have been executed once or not at all, never twice).",
 ["schedules", "histories", "fault_sequences"], "every interleaving of the exchanges of the masters and of the application, with dropped connections",
 "The tests use one master at a time.",
 [M, T], [("request execution", T + " TcpServer._do_run"), ("atomic slave", M + " Slave")], ["call and return events of the masters"])

prop("C28", "The pymodbus adapter returns what the slave holds",
 "Each operation of PyModbusClientTCP acts on slave 1 exactly like the corresponding request: reads return the list of the values of the slave, writes store the given value, and failures raise instead of returning wrong data. The host, port and timeout which are not given are the default ones of the TCP master.",
 ["inputs"], "every operation, address, number and value",
 "There is no test of the adapter.",
 [P], [("adapter", P + " PyModbusClientTCP")], ["values returned and stored"])

prop("C29", "The web HMI shows and changes the values of the servers it is told to",
 "The web HMI reads and writes exactly the requests the user configured and shows the answers of the servers, and what is configured survives a restart.",
 ["histories", "inputs"], "every sequence of pages and configurations",
 "There is no test of the HMI.",
 ["hmi/master_webhmi.py"], [("application", "hmi/master_webhmi.py")], ["pages"])

prop("C30", "A master opens, keeps, releases and reopens its connection, with its timeout",
 "A master opens its connection (or its serial port) when it first needs it, or with open(), keeps this one for the following exchanges, releases it with close() or when it is destroyed, and opens it again when it is next used; opening or closing twice is harmless, whatever the number of files open in the process. The timeout of the constructor or of set_timeout, set at any time, applies to the connection which is open and to those opened later: an exchange with a silent slave fails after about that time and not before, and an answer given within it is accepted. Failed connections leave no descriptor behind. A TCP or RTU over TCP master made without arguments asks this computer on the port 502 with a timeout of 5 s; a TCP server made without arguments serves the port 502 of every address.",
 ["histories", "fault_sequences"], "every sequence of open, close, exchanges, timeouts, cuts and absences of the slave, on TCP, RTU over TCP and serial masters",
 "The tests open one connection and close it at the end; they look neither at the connections seen by the slave, nor at the timeouts.",
 [M, T, R], [("open and close", M + " Master.open, close"), ("connection", T + " TcpMaster._do_open, _do_close, set_timeout"), ("port", R + " RtuMaster._do_open, _do_close, set_timeout")],
 ["connections and their end as the slave sees them", "openings of the port", "duration of the exchanges", "descriptors"])

prop("C31", "RTU masters and servers keep the silences of the line as they are set",
 "The end of a frame is detected with the time set: by default 3.5 characters (interframe_multiplier) of 11 bits at the baud rate of the port up to 19200 bauds, 3.5 times 0.5 ms above, with an inter-byte timeout of 1.5 characters (interchar_multiplier), or with the given multipliers and t0; set_timeout replaces the first one at any time. Every read which may end a frame uses the current value, whatever happened before (exchanges, errors of the port, start, stop, reopening), and only the wait for the first byte of a request is without limit. A master waits for the answer from the end of the transmission of its request.",
 ["configurations", "histories"], "every baud rate, multiplier and setting, and every sequence of exchanges, errors, starts and stops",
 "The tests compute the delay for a few baud rates; they never look at the timeouts in force at each read.",
 [R, U], [("characters", U + " calculate_rtu_inter_char"), ("settings", R + " RtuMaster.__init__, RtuServer.__init__, set_timeout"), ("first byte", R + " RtuServer._do_run")], ["timeouts of the port at each read"])

prop("C32", "The log of the verbose mode tells exactly the bytes exchanged",
 "In verbose mode a master logs each request it sends ('-> ') and each response it receives ('<- '), and a server each request it handles ('-->') and each response it gives ('<--'), once each, in the order of the exchanges and with the bytes in decimal separated by '-'; when the mode is off nothing of these is logged, and the mode can be changed between exchanges. The console logger prints each record (of ASCII text) on one line and the UDP logger sends each one in a datagram, in order, with the given level and format.",
 ["inputs", "histories"], "every exchange (also refused, unanswered, broadcast) of every kind of master and server, the mode and the level being switched at any time",
 "The tests turn the verbose mode on without looking at what it logs.",
 [M, U], [("records", M + " Master.execute, Server._handle"), ("format", U + " get_log_buffer"), ("loggers", U + " create_logger, ConsoleHandler, LogitHandler")], ["log records", "lines of the console", "datagrams"])

prop("C33", "A master refuses the arguments it can not encode before anything is sent",
 "A call of Master.execute with an argument which its field can not carry (slave outside of 0..255, address, quantity, value, mask or file number out of range, values missing, of another type or too many for the byte count, sequences of different lengths for a file, a function which is not supported) raises an exception: InvalidArgumentError for the slave, ModbusFunctionNotSupportedError for the function, ModbusInvalidRequestError for a negative or missing mask and for file arguments which are not tuples of one length. No byte of it is sent, and the next exchange, from any thread, succeeds on the same connection.",
 ["inputs", "histories"], "every function, argument and value out of its field, on every kind of master",
 "The tests try a few wrong arguments; they never look at the line, nor at the next exchange.",
 [M, T, R, U], [("arguments", M + " Master.execute"), ("slave", T + " TcpQuery.build_request; " + R + " RtuQuery.build_request"), ("lock", U + " threadsafe_function")], ["bytes on the line", "exceptions", "result of the next exchange"])

prop("C34", "Long use does not consume more and more resources",
 "However long a process uses the library, what it consumes does not grow with the number of operations done: after exchanges which succeed or fail (refused, silent, wrong, cut or reset by the peer), connections which come and go (closed, reset, in the middle of a request), noise and errors of serial ports, servers stopped and started (with or without success), hooks installed and uninstalled, slaves and blocks added and removed, exchanges made by threads which end, worker threads, commands given to the simulator by rpc or console, with or without verbose logs, the number of objects, the memory, the number of threads and the number of file descriptors of the process stay bounded.",
 ["histories", "fault_sequences"], "every kind of use of the library, repeated without end",
 "The tests do each thing a few times and never look at what stays behind; a leak shows only after many operations.",
 [M, T, R, O, U, H, S, C], [("connections", T + " TcpServer; TcpMaster"), ("ports", R + " RtuServer; RtuMaster"), ("hooks", H + " _HOOKS"), ("slaves and blocks", M + " Databank; Slave"), ("commands", S + " Simulator; RpcServer")], ["objects, traced memory, threads and descriptors after each round of operations"])

prop("C35", "An interruption reaches the caller and leaves the master or the slave usable",
 "When a call is interrupted by an exception which is not an Exception (KeyboardInterrupt raised by a signal at any moment of the call, SystemExit or another BaseException raised by the serial port or by a hook), the caller gets this very exception. Afterwards no lock is held: any thread can use the master (TCP, RTU, RTU over TCP) or the slave at once, the next exchange of the master gets the answer of its own request (whatever was interrupted: open, send, receive, close), and each cell of a slave whose write was interrupted has the value of before or the one written.",
 ["schedules", "fault_sequences"], "every moment of an exchange, of a request handled by a slave, of a local access; every call of the port; every hook of these calls",
 "No test interrupts anything; a signal comes at one instant among thousands.",
 [M, T, R, O, U], [("lock of execute", U + " threadsafe_function"), ("exchange", M + " Master.execute"), ("opening and closing", R + " RtuMaster._do_close; " + T + " TcpMaster._do_open"), ("slave", M + " Slave.handle_request; Slave.set_values")], ["exception received by the caller", "progress of another thread", "result of the next exchange", "memory"])

prop("C36", "RTU masters and servers work on the ports of pyserial, even lost ones",
 "On the real serial ports of pyserial (POSIX): a running RtuServer answers each intact request for one of its slaves, exactly as its memory prescribes, ignores what is corrupted, cut or glued, and answers only the last request when another one comes while the first is handled. Each exchange of a RtuMaster gives the values of the answer to its own request or raises (the exception of the slave, an error for silence or a corrupted answer) within its timeout: what was received before the request is not taken for its answer, the local echo is skipped, the port is closed by close() and opened again by the next exchange. stop() returns at any moment (idle, in the middle of a frame, during an answer, while the port is lost or being opened again), raises nothing, leaves the port closed and no file descriptor; start() serves again. When the device of the port disappears and comes back, at any moment, the server serves again by itself, and the master does after close() at the latest.",
 ["histories", "fault_sequences", "schedules"], "sessions on ports of pyserial: every kind of frame, every moment of a start, a stop, an unplugging",
 "The tests have no serial port, or a simulated one which does none of what the system does: time-outs set on a lost port, descriptors closed by another thread.",
 [R, M, U], [("server", R + " RtuServer._do_run; RtuServer.start; RtuServer.stop; RtuServer.close"), ("master", R + " RtuMaster._send; RtuMaster._recv; RtuMaster._do_open; RtuMaster._do_close")], ["bytes on the line", "result or exception of the exchange", "memory of the slave", "state of the port, file descriptors", "duration of stop()"])

prop("C37", "Masters used with threadsafe=False do not wait for each other",
 "When each master of a process is used by one thread at a time with threadsafe=False, an exchange never waits for the exchange of another master, whatever its slave does (answers late or never) and even when one other thread keeps the default; each call gives the values of the answer to its own request, or its own error. So a hook of a server may ask another slave with a master (threadsafe=False) while a master of the same process waits for this server. The calls leave the lock as it was: afterwards calls with the default arguments work in any thread.",
 ["schedules", "programs", "fault_sequences"], "any number of masters (TCP, RTU, RTU over TCP), calls, slow or silent slaves, schedules",
 "No test uses the argument; what two masters share shows only when both exchanges are under way.",
 [U, M, T, R, O], [("lock", U + " threadsafe_function"), ("exchange", M + " Master.execute"), ("transaction ids", T + " TcpQuery._get_transaction_id")], ["end of an exchange while others wait", "result or exception of each exchange", "bytes sent"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as fil:
    for p in PROPS:
        fil.write(json.dumps(p) + "\n")
