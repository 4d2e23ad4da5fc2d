from .common import *
P = Prop(
 "C19", "Async sink stores exactly the accepted bytes and answers every request",
 "The asynchronous sink stores the bytes of accepted writes in order at the destination, never writes beyond the destination length, and answers a write whose data it discards with an error status. Every open, write, flush, no-op and close request is answered exactly once, a write request follows open and every write only while the sink is open and able to receive, and close reports the exact number of received bytes once. Destination changes are announced to an open producer, and reopening starts at the beginning of the destination.",
 ["histories", "inputs"], "All histories of three writes of 0 to 4 bytes into destinations of 0 to 5 bytes, with and without a consumer buffer, write callback, destination set before or after open, followed by flush, no-op, close and reopen; writes of up to 65535 bytes into destinations of up to 140000 bytes.",
 "Tests run one happy path; overflow, missing destinations and closed states need other request sequences.",
 ["src/stream/async_sink.c", "include/embc/stream/async_sink.h", "include/embc/stream/async.h"],
 [("request dispatch and copy with bounds check", "src/stream/async_sink.c")],
 "other", TECH, NOTE,
 "Every request sequence in the scope is interpreted abstractly with a recording producer; responses, events and destination contents are compared with a ghost model.",
 jobs=[Eva("sink", "async.c", ["H_SINK"], slevel=100000, opts=REC(10), functions=["embc_stream_sink_*", "send"]),
       Eva("stream_large", "async.c", ["H_BIG"], slevel=100000, opts=REC(10), extra=["src/stream/async_sink.c", "src/stream/async_source.c"], soft=True, timeout=300)])
