"""Writes DESIGN.md from design.md.in, design_tail.md, the properties, the planted bugs and seeded_results.json."""
import json
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
C=json.load(open('/verif/harness/checks.json'))
D=dict(
C01=("round trip packet → muxer → demuxer, and tag → writer → parser, compared field by field; reading is repeated under a drawn fragmentation of the byte stream and must not depend on it; packets kept by the reader must not change when more are read","payloads to 200 KB, 12 packets, 32-bit millisecond times","tests write one fixed stream"),
C02=("writer: a strict independent FLV parser (sizes, previous-tag sizes, stream ids, flags) must accept every byte; reader: files of an independent writer, including tags the library must skip","14 tags per file","no test has foreign files; round trips cannot see an error made on both sides"),
C03=("every cut position (exhaustively up to 900 bytes, drawn around tag borders beyond) must give the whole packets before it and then an error, EOF only at a tag border; each write call and byte of the destination failing must be reported; hostile bytes end in an error within limits","6 tags for exhaustive cuts","crash/fault points are quantified over, tests have none"),
C04=("bytes equal to those of an independent encoder, size function equals length, decode gives the value; a Go map model for the ordered AMF map under operation histories","nesting to 200, strings to 17 MiB, arrays of 200,000 elements","value trees are unbounded; tests have four"),
C05=("values encoded by an independent AMF3 encoder must decode to the model value","AMF3 references are refused by the library as unsupported: only an error is required","as C04"),
C06=("termination, processor time and allocation proportional to the input, every proper prefix an error","inputs to 4 MiB","hostile input is unbounded"),
C07=("two library endpoints connected by an in-memory pipe with drawn delivery sizes: the packets read equal those written, (prompt test) each is readable before the next one is written, and a writer that is gone before the reader begins loses nothing, although acknowledgements and ping responses can no longer be sent","payloads to 4 MiB","tests use one fixed fragmentation; loss of flushing only shows in between"),
C08=("an independent encoder draws any legal chunking (ids, header types, extended timestamps, interleaving, chunk-size changes, aggregates, control messages, aborted messages); the library must deliver exactly the messages","10 messages, 12 chunk streams","no test reads another implementation's chunking"),
C09=("every byte written after the handshake is decoded by a strict independent chunk decoder that knows the announced chunk size and window, and must give the written messages with their absolute times","8 tags for bare connections","a writer and reader with the same mistake pass round trips"),
C10=("a reference peer plays the other side with any C1/S1, plain or signed in either layout; echoes and HMAC digests are recomputed independently; every cut and write fault gives an error","handshake only","random fields and faults"),
C11=("reference client and server record what the library requests and answers (app, tcUrl, stream name, role, window, pings, refusals) and the outcome on both sides is compared with the plan","URLs of 2–4 segments","sessions of two parties with drawn URLs and refusals"),
C12=("hostile streams valid up to each stage of the session; termination, allocation limits and an error, with the peer kept connected so that waiting for more is distinguished from refusing","about 200 KB of input per case","as C06"),
C13=("splitting inverts joining; Annex B framing by an independent splitter; hostile input gives sub-slices of the input only; emulation prevention against a bit-exact reference","units to 64 KiB","input is unbounded"),
C14=("an independent bit-level encoder writes the sets from a drawn description; size, profile, level, frame rate and ids must equal those of the description; cuts and hostile bytes within limits","all syntax elements of SPS incl. VUI; PPS ids","tests have one SPS"),
C15=("bytes equal to an independent avcC encoder, parse back, comparison decided by set equality of the model, deep independence of copies","31 SPS, 255 PPS","as C14"),
C16=("independent bit-level encoder/parser for AudioSpecificConfig and ADTS","the fields the library models","as C14"),
C17=("a big-integer model of the bit string, written and read under drawn fragmentations and faults; Exp-Golomb against its definition over 32 bits","24 fields","as C14"),
C18=("arithmetic definition of each helper with guard bytes around; vectors against the concatenated bytes; times over the nanosecond range","8 buffers per vector","value ranges"),
C19=("recordings read back by the demuxer *and* by a strict ISO reader: payloads, order, keyframes, times to within one tick of the time scale, no drift; faults of the destination reported; sizes beyond 4 GiB over a sparse destination refused or right","one video and one audio stream, 40 packets (1500 for drift)","round trips, faults, 32-bit borders"),
C20=("bytes equal to an independent encoder for values of every box type; parse of both; unknown boxes kept; descriptors in all legal length forms","the box types the library has","no test covers the boxes"),
C21=("files of an independent ISO writer with any layout of tables and chunks; a model computes every sample's position, time and order and the position after each seek in a history","1500 samples, 4 tracks; version-0 headers, stco, stsz, no edit lists (others are not supported)","file layouts and seek histories"),
C22=("forged, cut, contradictory and random files: an error or a sound result, within processor-time and allocation limits, and every sample delivered is a part of the file","files to some 100 KB (offsets anywhere)","hostile input"),
C23=("an independent RTP packetizer sends drawn access units; a model of what must be delivered (units, parameter sets in force, times, losses) is compared with the packets read","see limits","wire histories with wraparounds and losses"),
C24=("an independent SDP writer from drawn descriptions, field by field; arbitrary text within limits","5 medias","text is unbounded"),
C25=("a server that checks each request against RFC 2326/2617 in the state of the session; refusals and silence at every request","two medias","protocol histories with faults"),
C26=("as C12, for RTSP, RTP and SDP of a hostile server","floods to 1 MiB","hostile input"),
C27=("the relay runs as a process. Lockstep histories have exactly one right outcome, which is compared; free-running ones are judged by order, keyframe-skip, configuration-in-force and completeness invariants; open files of the process must go back after everyone has left","3 streams, 10 connections, 40 packets each; schedules are those the machine gives, with drawn pauses","concurrency and histories; no test starts the relay"),
C28=("avtool runs on generated media, and what comes out is read by the reference parsers and compared with what the source holds; exit statuses on provoked failures","media to 16 MB","no reliable test runs the tool"),
C29=("what is created under a URL is read back under it and by reference parsers/servers; directory snapshots and the open files of the process before and after","names of drawn characters within the scratch directory","URL space, and effects on files"),
C30=("an exact model under a virtual clock (the runtime bubble of testing/synctest, in which time only advances when everyone waits), relations between groupings, lower bounds under the real clock","12 calls","call histories"),
C31=("a virtual clock (testing/synctest): the moment the server ends the connection is compared with the configured timeout exactly, the client's with one minute; what an established session delivers is compared packet by packet","pauses to 1000 hours, 5 packets","time and schedules: no test waits for minutes"),
C32=("a model of what each hook must be called with, computed from the messages the reference peer sends or receives and from the bytes recorded at its end; the same session without hooks","10 messages, 8 packets","hook answers and combinations; no test sets a hook"),
C33=("each job alone (differential) and what was written (round trip); the race detector (the check is built with -race) turns any unsynchronised sharing between objects into a failure, whether or not it showed in the output; guard bytes behind payloads; address ranges of delivered payloads; two readings of one input, in one of which every payload is overwritten on delivery","6 jobs at a time, 5 destinations, 3 rounds; schedules are those the machine gives (the race detector generalises over them)","concurrency across objects and aliasing over time"),
)
out=[]
for p in P:
    o,b,w=D[p['id']]
    out.append("**%s %s.** *Generated:* %s *Oracle:* %s. *Bounds:* %s. *Beyond tests:* %s.\n"%(p['id'],p['title'],C[p['id']]['rule'],o,b,w))
import os
R=json.load(open('/verif/tools/seeded_results.json'))
t=[]
for d in sorted(os.listdir('/verif/seeded'), key=lambda d:(json.load(open('/verif/seeded/%s/meta.json'%d))['property'],d)):
    m=json.load(open('/verif/seeded/%s/meta.json'%d))
    t.append("| %s | %s | %s | %s |"%(m['property'],d,m['needs'],R.get(d,'?')))
tail=open('/verif/tools/design_tail.md').read().replace('@TABLE@',"\n".join(["| property | planted bug | needs | caught by |","|---|---|---|---|"]+t)).replace('@N@',str(len(t)))
k=json.load(open('/verif/known_findings.json'))
tail=tail.replace('@FIXES@',str(len(k['fixed'])))
s=open('/verif/tools/design.md.in').read()
open('/verif/DESIGN.md','w').write(s+"\n".join(out)+"\n"+tail)
