import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
NETHOOK="tru.go New: verifPacketConn(tru.conn), build tag verif, so that the harness can stand in for the UDP socket"
p("C01","Messages arrive in order, each exactly once",
 "On an open connection the receiving application is handed the messages the sender's calls accepted, in the order of those calls: at every moment what it was handed is a prefix of what was accepted, with nothing repeated, skipped or invented. This holds whatever packets the network loses, repeats, delays or reorders. The two directions of a connection and different connections do not influence each other's sequences.",
 ["fault_sequences","schedules","histories"],"every pattern of loss, duplication, delay and reordering of data and acknowledgement packets; every interleaving of sends in both directions and on several connections",
 "TestPacketSend counts packets on a loss-free loopback and TestReceiveQueue feeds one fixed arrival order; no test loses, repeats or delays a packet on a live connection or compares the delivered sequence with the sent one",
 ["tru.go","channel.go","receive_queue.go","packet.go","split.go"],
 [("arrival decision by number distance","tru.go serve, case statusData"),("reorder buffer","receive_queue.go process"),("modular distance","packet.go distance"),("number assignment","channel.go newID")],
 [("expectedID","number of the next packet to hand over","channel.go Channel"),("recvQueue","packets received ahead of their turn","receive_queue.go")],
 ["reader callbacks","datagrams at the packet connection"],NETHOOK)
p("C02","Message content and boundaries survive transport",
 "Every message is handed over byte for byte as it was sent and as one message, for every length from empty to many packets and for every configured maximum packet size including the default, and what was handed over is not changed afterwards. This also holds when several goroutines send on one connection at once and when the caller overwrites its buffer after the send call returned. The number the send call returns is the number the delivered message carries.",
 ["inputs","schedules","configurations"],"every message length and content, every maximum packet size, every interleaving of concurrent senders, under loss and reordering of the packets of a message",
 "TestSplitPacket sends two messages of fixed length, one after another, with one packet size on a loss-free loopback; the default packet size, empty and boundary lengths and concurrent senders are not exercised",
 ["split.go","crypt.go","packet.go","channel.go"],
 [("splitting","split.go splitPacket"),("reassembly","split.go combinePacket.packet"),("packet encryption","crypt.go encryptPacketData/decryptPacketData"),("header coding","packet.go MarshalBinary/UnmarshalBinary"),("packet size limit","packet.go MaxDataLen")],
 [("combine","fragments of the message being reassembled","split.go")],["send call result","reader callbacks"],NETHOOK)
p("C03","Lost packets are recovered until acknowledged",
 "While a connection is open, every data packet not yet acknowledged is sent again, at intervals of no less than 30 ms and no more than about 3.3 s, up to a hundred times before the connection is given up, and never again after its acknowledgement arrived; every intact data packet that reaches an open connection, also a repeated one, is acknowledged. A message is handed over as soon as it and all messages before it have arrived. So when the network lets packets through again, everything accepted is delivered within seconds.",
 ["fault_sequences","schedules"],"every finite pattern of lost data and acknowledgement packets followed by a working network",
 "no test loses a packet, so retransmission, backoff, repeated acknowledgement and giving up are never executed with a checked outcome",
 ["send_queue.go","channel.go","tru.go","receive_queue.go"],
 [("retransmit timer","send_queue.go retransmit"),("retransmit time and backoff","channel.go setRetransmitTime"),("acknowledgement","channel.go writeToAck, tru.go serve"),("removal on acknowledgement","tru.go serve case statusAck, send_queue.go delete")],
 [("sendQueue","packets sent and not acknowledged","send_queue.go")],["datagrams at the packet connection","reader callbacks","statistic"],NETHOOK)
p("C04","A delivery callback reports once and truthfully",
 "A send that was given a delivery callback gets exactly one call of it: success if the acknowledgement of the message's last packet arrives before the timeout, otherwise an error when the timeout (the given one, or 5 s) has passed, also when the connection ended meanwhile. Success is never reported for a message whose last packet has not reached the peer. A send that returned an error gets no call.",
 ["fault_sequences","schedules","histories"],"every timing of acknowledgements, losses, repeats and connection ends relative to the timeout",
 "TestPacketDelivery waits for the first call of one success and one timeout and never looks for a second call",
 ["packet.go","tru.go","channel.go"],
 [("callback and timeout timer","packet.go SetDelivery"),("callback on acknowledgement","tru.go serve case statusAck")],
 [("deliveryTimer","timeout of a pending callback","packet.go Packet")],["delivery callbacks"],NETHOOK)
p("C05","Connect yields one agreed connection or a clean error",
 "If a connection attempt reports success, both ends hold the connection open to each other and every message either sends is understood by the other; the accepting application is told of each connection exactly once and before it is handed any message of it. Otherwise the attempt returns an error after about five seconds and leaves no connection of its own behind: none on its own side, and none on the other side a few seconds later (one that the other end's own attempt established meanwhile stays). An attempt that no other attempt between the two crosses, to an open endpoint, and all of whose packets arrive soon, succeeds. This holds for every loss, repetition, delay and reordering of the handshake packets, for repeated attempts from one address, and when both ends connect to each other at once.",
 ["fault_sequences","schedules","histories"],"every fate (lost, repeated, delayed, reordered) of each handshake packet, sequences of attempts from one address, simultaneous attempts from both ends",
 "the tests connect once per endpoint over a loss-free loopback and look only at the returned error",
 ["connect.go","channel.go","tru.go"],
 [("handshake steps","connect.go serve"),("waiting and timeout","connect.go Connect, wait"),("connection creation","channel.go newChannel")],
 [("connects","attempts waiting for an answer","connect.go connect"),("channels","open connections by address","tru.go Tru"),("session key","key both ends must share","crypt.go sessionKey")],
 ["result of Connect","connect callback","messages exchanged afterwards","number of open connections"],NETHOOK)
p("C06","Repeated handshake packets do not disturb a connection",
 "Once a connection is established, late or repeated copies of its own handshake packets change nothing: it stays open at both ends, no reader is told of an end, no second connection is announced, and messages keep flowing both ways. A genuinely new attempt from the same address succeeds as a first one does and replaces the old connection, whose readers are told once that it ended, and nothing later happening to the old one affects the new one.",
 ["fault_sequences","histories"],"every repetition and delay of each of the four handshake packets, at every point of the life of the connection; every sequence of reconnects",
 "no test repeats or delays a handshake packet or connects twice from one address",
 ["connect.go","tru.go","channel.go"],
 [("handshake dispatch","tru.go serve"),("handshake steps","connect.go serve"),("removal from the table","channel.go destroy")],
 [("channels","open connections by address","tru.go Tru")],["reader callbacks","connect callback","number of open connections"],NETHOOK)
p("C07","The end of a connection is announced once and is final",
 "When a connection ends, for whatever reason, its reader and the endpoint's common reader are each told exactly once; from then on sending on it fails with the destroyed error, it is reported as destroyed and is no longer listed, nothing more is handed over from it (save a message whose hand-over was already under way) or sent to its peer, and ending it again does nothing. Ending it locally notifies the peer, whose side then ends as well. Closing the endpoint ends all its connections this way and may be repeated.",
 ["histories","schedules","fault_sequences"],"every cause of an end (local close, peer's close, silence, replacement, endpoint close), alone, repeated or combined, with traffic in flight, and with calls made from the end notification itself",
 "tests close endpoints only as clean-up and check nothing afterwards",
 ["channel.go","tru.go","statistic.go","send_queue.go"],
 [("ending","channel.go destroy, Close"),("closing the endpoint","tru.go Close, channel.go ForEachChannel"),("refusing sends","channel.go writeTo")],
 [("destroyed","the connection has ended","statistic.go statistic")],["reader callbacks","results of calls","datagrams at the packet connection"],NETHOOK)
p("C08","Idle connections stay, silent peers are detected",
 "A connection on which nothing is sent stays open for any length of time while packets get through, because the side that connected probes an idle peer and the peer answers. A connection from whose peer no packet arrived for six seconds is ended, no earlier than six and no later than seven seconds after the last packet heard, whatever is being sent to that peer.",
 ["histories","fault_sequences"],"every idle period, every point at which the peer or the network goes silent, single lost probes, one- or two-way silence",
 "no test lasts long enough to reach a probe or the silence limit",
 ["statistic.go","channel.go","tru.go"],
 [("activity check","statistic.go checkActivity"),("probe and answer","tru.go serve case statusPing, channel.go writeToPing/writeToPong")],
 [("lastActivity","time of the last packet heard","statistic.go")],["reader callbacks","datagrams at the packet connection"],NETHOOK)
p("C09","Strangers and malformed datagrams cannot do harm",
 "No datagram of any content and from any address crashes or stalls an endpoint. Datagrams from one address, well-formed or not, never change connections with other addresses: these stay open and their messages keep arriving unchanged and in order. Datagrams that are too short or carry no known type are ignored, also when they come from a connected address, and data from an address without an established connection is never handed to the application.",
 ["inputs","histories"],"every datagram content, source address and arrival point, interleaved with the traffic of other connections",
 "tests only ever exchange well-formed packets between two connected endpoints",
 ["tru.go","packet.go","connect.go","crypt.go","channel.go"],
 [("unmarshalling","packet.go UnmarshalBinary, connect.go UnmarshalBinary"),("dispatch by address and type","tru.go serve")],
 [("channels","open connections by address","tru.go Tru")],["reader callbacks","process survival","number of open connections"],NETHOOK)
p("C10","A punch datagram reaches the punch callback and nothing else",
 "Data sent as a punch packet to an address is handed, if the datagram arrives, to that endpoint's punch callback once per arrival, byte for byte and with the sender's address, whether or not the two are connected. It is not handed to any reader, opens no connection and does not disturb one.",
 ["inputs","histories"],"every payload, with and without a connection between the two addresses, at any point of its life",
 "no test sends a punch packet",
 ["tru.go","channel.go","packet.go"],
 [("sending","channel.go WriteToPunch"),("dispatch","tru.go serve case statusPunch")],[],["punch callback","reader callbacks","number of open connections"],NETHOOK)
p("C11","Stream connections and listeners keep the net contract",
 "Reading from an accepted or dialled connection yields, message by message in order, exactly the bytes of each write followed by one end-of-file, for every size of read buffer; a write reports the full length or an error. Several goroutines may read or write at once. What had arrived before the peer ended the connection can still be read. Closing a connection or losing its peer unblocks pending reads, which then report the destroyed error, and later writes and closes report an error; closing a listener unblocks pending accepts with an error and may be repeated, and a listener reports its address. A connection nobody reads from or accepts delays no other connection.",
 ["inputs","histories","schedules"],"every message length and read buffer size, every order of reads, writes, accepts and closes on either side",
 "no test uses the net.Conn and net.Listener interface at all",
 ["tru_net.go","connect.go"],
 [("reading with end-of-file marks","tru_net.go Conn.Read"),("hand-over from the reader","tru_net.go Conn.reader"),("accepting","tru_net.go Accept, connected"),("closing","tru_net.go Close")],
 [("read","bytes of the current message not yet read","tru_net.go connRead")],["results of net.Conn and net.Listener calls"],NETHOOK)
p("C12","Statistics tell what happened",
 "For every open connection the statistic reports the messages sent and handed over, the data packets repeated, the acknowledgements matched and unmatched, the received packets dropped as repeats, the current lengths of both queues and how often the oldest packet in the send queue was repeated, exactly as they happened on that connection, whatever number of connections is open; the reported speeds are the messages sent and handed over within the last second (to two tenths). On a path of constant delay without repeats the reported trip time is the round trip time.",
 ["histories","fault_sequences","configurations"],"every history of sends, losses, repeats and acknowledgements on any number of connections",
 "TestReceiveQueue looks at one counter on one connection; no test checks the reported statistic",
 ["statistic.go","speed.go","tru.go","channel.go","send_queue.go"],
 [("counters","statistic.go set*"),("report","statistic.go Statistic"),("speed","speed.go add, process"),("trip time","channel.go setTripTime")],
 [("send, recv, retransmit, ackRecv, ackRecvDrop, drop","counters","statistic.go statistic")],["Statistic()"],NETHOOK)
p("C13","Long streams survive number wrap-around",
 "Packet numbers are reused after 1048576 packets, and a stream of any length is still delivered in order, each message once and unchanged, with packets lost, repeated and reordered around the wrap-around. A sender that gets far ahead of a packet the peer misses never makes the peer lose or misplace messages: a send that would run half of the number range ahead of the oldest unacknowledged packet is refused with an error.",
 ["histories","fault_sequences"],"streams longer than the number range, any loss and reordering near the wrap-around, any number of packets outstanding",
 "the longest test sends 10000 packets of 1048576; TestDistance prints distances without checking them",
 ["packet.go","channel.go","tru.go","send_queue.go"],
 [("modular distance","packet.go distance"),("wrap of numbers","channel.go newID, newExpectedID"),("number coding","packet.go packStatID/unpackStatID")],
 [("id, expectedID","next numbers to send and to expect","channel.go Channel")],["reader callbacks","results of send calls","datagrams at the packet connection"],NETHOOK)
p("C14","Message data is never sent readable or accepted altered",
 "On an established connection no part of a message's content appears readable in any datagram, first sent or repeated, whatever its length; equal messages look different in different packets of one direction and on different connections, and the session key is never sent readable. A data packet of more than 64 bytes whose content was altered on the way is neither handed over nor acknowledged, and the message still arrives intact when the genuine packet is repeated.",
 ["inputs","fault_sequences","histories"],"every message length and content in both directions, every altered byte of a large packet, every connection",
 "no test looks at the datagrams or alters one",
 ["crypt.go","connect.go","channel.go","tru.go"],
 [("packet encryption","crypt.go encryptPacketData/decryptPacketData"),("per packet key","crypt.go packetKey"),("session key exchange","connect.go serve")],
 [("session key","key of the connection","crypt.go sessionKey")],["datagrams at the packet connection","reader callbacks"],NETHOOK)
p("C15","Messages go to the connection's reader first",
 "Every message is handed first to the reader of its own connection, if it has one, and to the endpoint's common reader exactly when there is no such reader or it did not report the message processed (a reader that ends its connection meanwhile may be the last to see the message). A reader given with the connection attempt sees every message of the connection, also one that arrives before the attempt returns.",
 ["histories","schedules"],"every combination of readers and of their answers, every arrival time relative to the completion of the attempt",
 "tests use either a common reader or none and never both; no message arrives while an attempt is completing",
 ["tru.go","connect.go"],
 [("reader chain","tru.go readerProccess"),("installing the reader","connect.go Connect")],
 [("reader","reader of the connection, and of the endpoint","channel.go Channel, tru.go Tru")],["reader callbacks"],NETHOOK)
p("C16","Callbacks may use the endpoint",
 "A message reader, a delivery callback, a connect callback and an end notification may send, close connections (their own too), list them and read the statistic; every such call returns, and the endpoint goes on serving all its connections, also under a backlog of arrivals many times longer than its internal queues.",
 ["schedules","histories"],"every callback making any of these calls, with any backlog of arrivals and any number of connections",
 "only TestPacketSend calls back into the endpoint, one send from a reader",
 ["tru.go","channel.go","connect.go","send_queue.go","statistic.go"],
 [("queues between the goroutines","tru.go readerProccess, senderProccess"),("locks","tru.go Tru.mu, send_queue.go, statistic.go")],
 [("readerCh, senderCh","bounded queues of the endpoint","tru.go Tru")],["return of calls","continued traffic"],NETHOOK)
p("C17","The log prints what level and filter allow",
 "A log message is printed exactly when its level is enabled, that is not below the current level in the documented order, and it contains one of the filter's parts or no filter is set; changing level or filter takes effect for the next message. Setting a level by its printed name or number, in any letter case, selects that level, unknown names select none, and switching steps through all levels and starts over. This also holds when several goroutines log, set and switch at once.",
 ["histories","inputs"],"every sequence of level changes, filter changes and messages, also of several goroutines",
 "TestTeolog only prints and asserts nothing",
 ["teolog/teolog.go"],
 [("level","teolog/teolog.go SetLevel, SwitchLevel, levelFromStr"),("filter","teolog/teolog.go SetFilter, Logfilter, writer.Write")],
 [("level, filter","current settings","teolog/teolog.go Teolog")],["standard output"],None)
p("C18","A pressed key runs exactly its action",
 "With the hotkey menu running, every pressed key runs the action most recently added for that key and no other, or the unknown-key action if there is none; a pending next-key action runs first, once, with the pressed key. After the menu is stopped by an action, no further key runs anything until it is run again, and stop actions run once each per stop in the order added.",
 ["histories"],"every sequence of added actions, pressed keys, next-key actions and stops",
 "the package has no tests",
 ["hotkey/hotkey.go","term/term.go"],
 [("dispatch","hotkey/hotkey.go run"),("registration","hotkey/hotkey.go Add, AddUnknown, NextKeyAction"),("key reading","term/term.go Getch")],
 [("hotkeys, unknownKey, nextKeyAction, stop","menu state","hotkey/hotkey.go Hotkey")],["action callbacks"],None)
p("C19","The statistic is printed while it is on, and only then",
 "From StatisticPrint (or New with Stat(true)) until StatisticPrintStop or Close a frame is printed twice a second: one row per open connection, sorted by address, with the figures Statistic reports, their totals when there are several, and, while the minilog is on, the latest messages (at most 256) about connections that began or ended, in the order of time. StatisticPrintRunning tells whether printing is on. Once StatisticPrintStop or Close has returned nothing more is printed, save a frame under way, until it is started again. Starting while it runs and stopping while it is stopped change nothing. An endpoint that New failed to make prints nothing and ends no process.",
 ["histories","schedules"],"every order of starts, stops, minilog switches, connections and messages, in particular stops and closes while a frame is being made",
 "no test prints the statistic; what goes wrong needs a stop while a frame is being made, or two starts",
 ["statistic.go","statistic_log.go","tru.go","channel.go"],
 [("frame timer","statistic.go printStatistic"),("stop","statistic.go StatisticPrintStop"),("table","statistic.go Statistic, String"),("log","statistic_log.go add, get"),("start with New","tru.go New")],
 [("statTimer","timer of the next frame, nil when off","tru.go Tru"),("statMsgs","the log","statistic_log.go")],["standard output","StatisticPrintRunning","StatisticMinilog"],NETHOOK)
p("C20","The endpoint's menu does what it says",
 "With Hotkey(true) every key of the menu does exactly what its help says: u turns the printing of the statistic on and off, U the minilog, l switches to the next log level, Ctrl+L and f set the level and the filter typed after them, Ctrl+C stops the menu until it is run again, q closes the endpoint, whose readers are told, and ends the process; Enter does nothing and an unknown key says so. Help (h, ?) and L stop the log and show what is available and set; the next key lets it go on at the level that was set before, and does its own work too. Nothing else changes level, filter or statistic, and what the application sets itself stays set.",
 ["histories"],"every sequence of keys, typed lines and calls of the application between them",
 "no test runs the menu",
 ["hotkey.go","hotkey/hotkey.go","teolog/teolog.go","statistic.go","statistic_log.go","tru.go"],
 [("menu","hotkey.go newHotkey"),("screens","hotkey.go stopLog, restoreLog, continueLog")],
 [("logLevel","level a screen found","hotkey.go hotkeyMenuState")],["standard output","Teolog.Level, Filter","StatisticPrintRunning","end of the process"],None)
p("C21","Calls made at the same time agree with one order of them",
 "The exported calls of endpoints, connections and stream connections may be made by several goroutines at the same time, while packets arrive, timers fire and callbacks run. Each call has its effect between its begin and its return, so that what concurrent calls report agrees with one order of them: messages of a connection are numbered and arrive in the order of their sends, messages of several packets stay whole, a connection reported destroyed refuses every later send and is never reported otherwise again, a listing or a statistic shows exactly the connections that were there, settings last set are the ones in force, ending a connection or closing an endpoint from several sides at once has one effect and is told once, a closed endpoint gets no new connections, and connections dialled at once share one endpoint. No memory is used by two goroutines without synchronisation.",
 ["schedules","histories"],"every overlap of calls of any number of goroutines with each other and with the endpoint's own goroutines",
 "no test uses an endpoint or connection from several goroutines at once, and an unlucky overlap of microseconds does not happen in a test run",
 ["channel.go","tru.go","connect.go","send_queue.go","receive_queue.go","statistic.go","statistic_log.go","split.go","tru_net.go"],
 [("send in order","channel.go WriteTo"),("one end","channel.go destroy"),("one close","tru.go Close"),("no connection after close","channel.go newChannel"),("listing","channel.go ForEachChannel, statistic.go Statistic"),("common endpoint","tru_net.go newTrunet")],
 [("writeCh","held while one message is sent","channel.go Channel"),("destroyed","the connection has ended","statistic.go statistic"),("closed","the endpoint is closed","tru.go Tru")],["results of the calls","callbacks and their order","race detector reports"],None)
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
