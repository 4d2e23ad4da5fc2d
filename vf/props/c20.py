from .common import *
P = Prop(
 "C20", "Async source delivers its data exactly once, in order, and closes once",
 "The asynchronous source writes only when requested, at most one write per request, never more than the request's buffer or transfer unit allows, and its writes concatenate to exactly the configured data. It closes exactly once: with success after every byte was accepted, with the consumer's error as soon as a write is rejected, or as aborted on request; it reports the final status once, and ignores requests after closing until reopened, when it starts over. Connected to the asynchronous sink, the sink's destination receives exactly the source's data and the source reports success exactly when it fits.",
 ["histories", "inputs"], "Data of 1 to 6 bytes, every sequence of up to 5 write requests with producer or consumer buffers of several sizes, rejection at each response, up to three outstanding writes, aborts and late events; every source and sink buffer size of the connected pair.",
 "Tests run one transfer; rejections, aborts, several outstanding requests and limits need other request sequences.",
 ["src/stream/async_source.c", "src/stream/async_sink.c", "include/embc/stream/async_source.h"],
 [("write request handling and close on completion", "src/stream/async_source.c")],
 "other", TECH, NOTE,
 "Every request sequence in the scope is interpreted abstractly with a recording consumer, and the source is also linked with the sink; payloads, limits, closes and reported statuses are compared with a ghost model.",
 jobs=[Eva("source", "async.c", ["H_SOURCE", "STEPS=5"], slevel=100000, opts=REC(10), functions=["embc_stream_source_*", "send"]),
       Eva("source_outstanding", "async.c", ["H_MULTI"], slevel=100000, opts=REC(10)),
       Eva("source_to_sink", "async.c", ["H_E2E"], slevel=100000, opts=REC(40), extra=["src/stream/async_sink.c", "src/stream/async_source.c"], soft=True, timeout=300),
       Eva("stream_large", "async.c", ["H_BIG"], slevel=100000, opts=REC(10), extra=["src/stream/async_sink.c", "src/stream/async_source.c"], soft=True, timeout=300)],
 quick32=True)
