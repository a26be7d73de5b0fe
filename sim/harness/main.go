// Command harness simulates the library under test.
package main

import "github.com/alxarch/njson/verifsim/core"

var realLib = []string{"package njson (parser, document, pool, node, printing)", "package unjson (codecs, codec cache, line streams)", "packages strjson and numjson", "standard library (bufio, reflect, strconv, ...)"}
var stubLib = []string{"package sync (mutexes, pools, once): simulated", "map iteration order: simulated", "readers, writers, pipes, custom marshalers: simulated"}

func main() {
	core.Main([]*core.Prop{
		{ID: "C01", Setup: setupC01, Real: realLib, Stub: stubLib, Probes: []int{pBoundary, fUnterm, fCRLF, fDataEOF, fEmptyRead, fSplitRead, pMixed, pSource, pTwice, pMany},
			Rule: "Each run generates 1-3 newline-delimited streams of 1-10 (sometimes up to 700) records (lengths biased to the reader's buffer size), line endings, decode targets (also one for many lines, and different ones from line to line), kinds of reader and buffer sizes, and delivers the bytes through a reader whose every fragment, empty read and end-of-file the simulator decides; all decode results are compared with the records."},
		{ID: "C02", Setup: setupC02, Real: realLib, Stub: stubLib, Probes: []int{pMidErr, pEdgeErr, fReadErr, fReadErrD, fReadPerm, fStall},
			Rule: "Each run generates a stream of 1-8 records and 1-4 (sometimes up to 60) transient or permanent reader faults of 12 kinds and stalls at chosen offsets, biased into records, alone or together with data; the sequence of decode results must be the records in order interleaved with exactly the injected errors."},
		{ID: "C03", Setup: setupC03, Real: realLib, Stub: stubLib, Probes: []int{fBadLine},
			Rule: "Each run mixes good records with blank, cut, malformed, over-long, ill-typed, out-of-range and rejected lines under simulated fragmentation; exactly the bad lines must fail, and not as the end of the stream."},
		{ID: "C04", Setup: setupC04, Real: realLib, Stub: stubLib, Probes: []int{fWriteErr, fWriteShort, fWriteShrtN, fEncodeErr, pNewlines, pSameValue, pGenerated},
			Rule: "Each run lets 1-3 tasks encode 1-8 values each (records, self-marshaling values with line breaks, nodes, long, failing and unsupported values, nil, values of types an encoder is not for) to writers that block, fail or write short as planned; the bytes of each call are checked with encoding/json."},
		{ID: "C05", Setup: setupC05, Real: realLib, Stub: stubLib, Probes: []int{fPipeFull, fPipeEmpty, fDie, fGone},
			Rule: "Each run connects 1-2 producer/consumer pairs by bounded pipes of simulated capacity and fragmentation, with records of every kind and failing values in between, ending by clean close, producer death inside a record (seen as an error or as end of file) or consumer departure; all tasks must finish and the consumer's records must be a prefix."},
		{ID: "C06", Setup: setupC06, Real: realLib, Stub: stubLib, Probes: []int{fWStall, fWNest, fWPanic, fWriteErr, fWriteShrtN, fCbFail, fCbPanic, fCbNest},
			Rule: "Each run lets 1-4 tasks print 1-5 values each (nodes, documents, custom appenders that block, fail, panic or print something else) to writers that block, fail, write short, panic or print something else, over simulated buffer pools; each writer checks its bytes during the whole of its call."},
		{ID: "C07", Setup: setupC07, Real: realLib, Stub: stubLib, Probes: []int{fCbStall, fCbNest, fCbFail, fCbPanic},
			Rule: "Each run lets 1-4 tasks make 1-5 calls each that run custom JSON, text and node unmarshalers (directly wrapped, nested in structs, at top level), which block, call the library, fail or panic; each unmarshaler checks its bytes at entry and exit against the text by construction."},
		{ID: "C08", Setup: setupC08, Real: realLib, Stub: stubLib, Probes: []int{pParseFail, pParseBad, pResume, pDocReset, pDocPoolPut, pDocCopy, pDocAdopt},
			Rule: "Each run lets 1-4 tasks make 2-15 operations each on up to 3 documents each borrowed from the default and 0-1 shared pools (borrow, good, early-ending and corrupt parses, constructors, every edit, copies within and between documents, conversions, prints, decodes, reset, give back, implicit borrowing by marshal and unmarshal calls); every result is compared with a never-used private document doing the same."},
		{ID: "C09", Setup: setupC09, Real: realLib, Stub: stubLib, Probes: []int{pOldRead, pOldWrite, pOldValue, pOldIter, pOldKept},
			Rule: "Each run lets 1-4 tasks work on pooled documents as for C08 while handles and iterators obtained before every reset and give-back, by whichever task, and nodes kept by custom unmarshalers are read, written through and used as values; all must be inert and no document may show or lose anything."},
		{ID: "C10", Setup: setupC10, Direct: true, Real: realLib, Stub: stubLib, Probes: []int{pParseFail, pParseBad, pResume},
			Rule: "Each run makes 2-21 operations on documents, most of them parses whose input is first delivered cut at up to 4 arbitrary bytes or corrupted, then whole with a remainder; errors, remainders, all existing nodes and the final value are compared with the text and with a document that only saw the whole input."},
		{ID: "C11", Setup: setupC11, Real: realLib, Stub: stubLib, Probes: []int{pCopyOut, pReadWrap, fWStall},
			Rule: "Each run lets 2-4 tasks make 1-8 reads each (serialise, print, convert, navigate, iterate, decode, unmarshal, copy out and edit the copy) of one document with values known by construction; the document is compared node by node and by further edits afterwards; a second phase runs under the race detector."},
		{ID: "C12", Setup: setupC12, Real: realLib, Stub: stubLib, Probes: []int{pFirstRace, pBadType},
			Rule: "Each run lets 2-4 tasks request and use codecs of overlapping types (plain, recursive, also through lists, maps, pointers and arrays, mutually recursive, unsupported, interfaces) from 1-3 fresh caches of different options and the package's own; instances are compared across tasks, results against values by construction, and values of other types must be refused."},
		{ID: "C13", Setup: setupC13, Real: realLib, Stub: stubLib, Probes: []int{fCbStall, fCbNest},
			Rule: "Each run lets 2-5 tasks make 1-4 marshal and unmarshal calls each through package functions, shared codecs and caches, on values with custom methods in every position that block and re-enter; results are compared with the values by construction."},
		{ID: "C14", Setup: setupC14, Real: realLib, Stub: stubLib, Probes: []int{fCbFail},
			Rule: "Each run makes 1-6 encode, decode and stream calls on values with custom methods in every position (fields, elements, keys, pointers, dynamic and embedded values) of which the planned one or several fail; the failure must come back from the outermost call, and calls without failures must give the value by construction."},
		{ID: "C15", Setup: setupC15, Real: realLib, Stub: stubLib, Probes: []int{fCbPanic, fCbGoexit, fWPanic, fRPanic},
			Rule: "Each run lets 1-4 tasks make 1-4 calls each in which user code (marshalers, unmarshalers, omit methods, readers, writers) panics or ends its task at a planned point, among bystander tasks and followed by later calls; all other calls must give the results by construction and all tasks must finish."},
		{ID: "C18", Setup: setupC18, Direct: true, Real: realLib, Stub: stubLib, Probes: []int{pMemFail, fReadErr, fWriteErr, fCbFail, fCbPanic},
			Rule: "Each run repeats 1-2 uses of the library (line decoders over endless faulty streams, line encoders to failing writers, marshal, unmarshal, print and wrap calls with failing and panicking user code, pooled and reset documents with failing parses, codec caches) with a fixed cyclic mix of values 600-1200 times a round, and compares live memory after garbage collections between rounds."},
		{ID: "C19", Setup: setupC19, Real: realLib, Stub: stubLib, Probes: []int{pHeld, pSpoiled, pInput, fCbStall, fCbNest},
			Rule: "Each run lets 1-4 tasks make 1-8 calls each (decode from bytes, nodes and lines, encode to new and given buffers, convert and serialise documents, escape, encode values whose marshalers return buffers of their own), overwrites every input right after the call and some results later, and compares all results ever returned with deep copies after every later call and at the end."},
		{ID: "C20", Setup: setupC20, Real: realLib, Stub: stubLib, Probes: []int{pRetry, pIllTyped, fCbFail, fCbPanic, fWriteErr, fWPanic},
			Rule: "Each run lets 1-4 tasks make 1-4 calls each (encode, decode, print, stream) that fail or panic in user code, writers or input 1-3 times and are then repeated with the same value, buffer, document, target or stream; inputs are compared after every attempt and the result of the last with the value by construction."},
		{ID: "C22", Setup: setupC22, Direct: true, Real: realLib, Stub: stubLib, Probes: []int{pCostScale, pCostHist, pCostErr, pCostBad, pCostGrow},
			Rule: "Each run counts the library's statements and allocated bytes of a use: of data of one size and of 8 times that size (14 shapes of text, good and bad, 19 uses), of a stream and of one with 8 times the bytes or lines in small fragments and with transient errors, of small calls before and after a history of huge, failing and unfinished ones, and of an endless use early and late; they must stay in proportion."},
	})
}
