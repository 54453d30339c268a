import re
p='/verif/DESIGN.md'
s=open(p).read()
i=s.find('\nGenuine findings are in')
head=s[:i].rstrip()+"\n"
body = r'''
Genuine findings are in `known_findings.txt`; all of them so far are repaired ("fix:" commits in /repo), so no KNOWN-FINDING line is printed.

## The stand-ins

`shim/` holds headers (and a few bodies inside them) for takatori, yugawara, mizugaki, sharksfin, limestone, tateyama, decimal.hh and
arrow types, as far as jogasaki uses them. They are deliberately plain: value types (`decimal::triple`, `datetime::*`), tree nodes
(scalar expressions, relational operators, step graphs), the yugawara catalogue (tables, indexes, a configurable provider), and

* `decimal.hh`: an exact `decimal::Decimal` with contexts and traps over boost's `cpp_int`, in place of libmpdec++;
* `sharksfin`: an in-memory, ordered, transactional store with undo on abort, storages with options, sequences whose positions are
  durable only with their transaction, a *misuse* record (use of a disposed handle, double dispose, scans left open, calls on another
  transaction) and a fault switch (`faults{op, countdown, code}`: the n-th call of one API function fails with one status);
* `tateyama`: request/response/session objects that record every answer, an endpoint whose channels can fail, a task scheduler;
* `limestone`: a datastore with durability markers and a blob pool;
* `altimeter`: the event log as a list of records (P32 compiles jogasaki with ENABLE_ALTIMETER).

Two levels use them. P13-P23 and P33 compile the sources a facet needs (`closure.py` finds them) together with the stand-ins. P24-P32 ("engine
checks") compile *all* of jogasaki that the stand-ins carry (about 290 files) with address sanitizer, build an `api::impl::database`
on the in-memory store, and drive statements: the harness hands jogasaki the analysed statement (what mizugaki and yugawara would have
produced), and everything from there on - plan construction, scheduling, exchanges, operators, encoding, storage - is the code in /repo.
The stand-ins assert what the real libraries require of their callers where that is documented.

What the stand-ins cannot decide: SQL text analysis (mizugaki), the optimiser (yugawara), conflicts between concurrent writers
(shirakami), crash recovery of the log (limestone), files of arrow/parquet. See *Not covered*.

## The properties

Each section says what is generated, against which oracle, within which bounds, and which freedoms the oracle grants (a *freedom* is behaviour
the property leaves open; each was introduced because the code is right, or the documentation leaves it open, never to silence a defect).
Every check costs 10-40 s of running on 8 cores plus its build (5-100 s), in the quick tier.

### P01 Bytes become safe text
Facets: sanitising UTF-8, its locality (sanitising a concatenation at character boundaries is concatenation), UTF-8 recognition, control characters, trimming and prefixes, hexadecimal
printing. Generator: bytes assembled from well-formed characters of every length, truncated, overlong, surrogate and stray bytes, so that
boundaries between good and bad meet. Oracle: a reference decoder written from RFC 3629; heap buffers of the exact size, so that address sanitizer sees any over-read.
Freedom: `is_valid_utf8` may accept overlong E0, surrogates and F4 > 8F (it checks structure, as its comment says); `sanitize_utf8` may not.

### P02 Variable-length values
Histories of text/binary values and buffers (stored short, long, in resources, concatenated, copied, moved) against `std::string` models; order, equality and hash
against unsigned byte order; buffers against a model of size, capacity and alignment. Freedom: bytes of an aligned buffer uncovered by a resize within its capacity are unspecified.

### P03 Records to user-defined functions
Record cursors: random sequences of typed adds and typed reads against a list model, including reads as another kind. Streams: random
push/take/close/abort histories against a queue model, and the same with threads where every record must arrive once and in each producer's order, and no consumer may
sleep for ever (hang limit). Call context: deadline within ±2 ms of timeout.

### P04 Catalogue of user-defined functions
Random sets of protobuf file descriptors (nesting up to five levels, oneofs, duplicates, services, unreadable and damaged files written to a scratch directory) against a model that walks the same
descriptors; argument patterns against brute-force enumeration; junk files must give one error each.

### P05 Base64 and hexadecimal
Round trips, a reference recogniser for base64, hex of any case, integer printing against `snprintf`.

### P06 Descriptions on the wire
Random columns and tables to protobuf and back; equality compared attribute by attribute after single-attribute mutations; one-line debug output parsed by a JSON parser of the harness and compared to the message by reflection.

### P07 Error reports
The full code tables by name, classification, and random error records whose supplemental text must parse as JSON with the same content. Freedom: the supplemental text may be empty if a text in it is not UTF-8.

### P08 Waiting primitives
Sequential model histories for latch, waitable atomic and use counter, and threaded facets aimed at the check-then-sleep window (nondet facets: random delays, thousands of repetitions, hang limit).

### P09 Requests and statistics
Mapped records, transaction options, batch options and counters against maps; concurrent writers must sum exactly; stopwatch points against a list of passages.

### P10 Laws of small helpers
Reference definitions of power-of-two rounding, list difference, mixing injectivity (collisions looked for among structured inputs), generators (reproducible and in range), names, diagnostics, regions. Freedom: rounding up above 2^63 is unspecified.

### P11 Type attributes, references and kinds
Equality, copying and printing of all attribute classes against tuples; every enumerator printed under its own name.

### P12 Working memory
Random allocation histories on the monotonic, LIFO, FIFO and block resources, with checkpoints, oversized requests and releases, against a model of live regions: every region is filled with
its own pattern which must survive; page counts against the pool; threads sharing a pool. Preconditions respected: alignment ≤ 4096, no 0-byte requests, LIFO checkpoints not taken on an unused trailing page.

### P13 Values in result streams
Sequences of all kinds against a byte-level reference of the published format (shortest form), buffers of every size, typed misreads and arbitrary bytes. Freedom: malformed input may raise any `std::exception`. The format document says
time_point sub-seconds are unsigned but the code (both sides) writes them sign-flipped as int32; the check pins the code since changing it would break stored streams.

### P14 Stored keys and values
Byte-level reference of docs/dataformat; order of encoded keys against a reference comparison of rows; values that do not fit; buffers too small; damaged bytes under sanitizers. Freedom: varying octets are not keys.

### P15 Rows
Layouts, copies, stores and writers against lists, over several memory pages, with threads for writers. Freedom: null flags limited to one page.

### P16 Forward exchange
Random partitions, upstreams, limits, flushes and yields; sequential interleavings as histories and threaded runs. Freedom: the record store's count may momentarily be off while threads run.

### P17 Comparison and hashing
Reference comparison over values with specials (NaN payloads, signed zero, trailing zeros) and different layouts of the same row; totality, antisymmetry, transitivity of sorts; equal rows have equal hash and partition.

### P18 Group exchange
Rows over upstreams, partitions, both readers, limits and sort keys against a reference grouping. Freedom: readers read each group to its end; writers flush before release, as the callers do.

### P19 Aggregation exchange
Every registered function over random groups and table splits against the definition. Freedom: overflowing sums are not judged; floats only on exactly-adding values.

### P20 CAST
Every pair of types with boundary-directed values against an exact big-number reference, each loss-of-precision policy. Freedom: policy `unknown` may give null or the clamped value; float to string or decimal needs six significant digits; padding removal across hex conversions.

### P21 Expressions
Random typed expression trees over random rows against a reference interpreter with exact arithmetic and three-valued logic; LIKE against a reference matcher by characters. Freedom: integer overflow of + - * and negation of the minimum is unspecified; with errors in both operands either may be reported; an error wins over AND/OR short-circuit.

### P22 Built-in functions
All functions and argument types, generated boundary values, a reference for each. Freedom: ROUND of floats within 6 ulp; base64 with non-zero trailing bits may be refused.

### P23 Sequences
Histories with commits, aborts, restarts and engine failures against a model; threads drawing concurrently; definition-id table compared after every step. Freedom: `find_next_empty_def_id` need only give an unused id.

### P24 / P25 DML and failure atomicity
Random tables (up to 6 columns of all storable types, defaults, sequences, identity, 0-2 secondary indexes, any directions), then up to 40 statements in transactions. The model interprets each statement on maps
and predicts rows, counters and the error kind; after every transaction all tables and all index entries are read raw from the store and compared to a reference encoding.
P25 makes one call of the transaction engine fail per history, at any position. Freedom: any error of the first failing tuple; a write to a read-only column may be refused at prepare or at run.

### P26 Index reads
Random data with few distinct key values, index descriptions, scan/find/index-join plans with any bounds, rtx with parallel scan settings, faults and corrupt entries. Reference: filter over the model rows in order of the index. Order is judged except for parallel scans.

### P27 Relational plans
Plan trees to depth five interpreted by a naive relational algebra in the harness; one and several workers, partitions 1-8, scan blocks and yields. Freedom: a limit without a total order may choose any rows of the right number.

### P28 DDL, privileges, restarts
Histories of definition and data statements by four kinds of users with overlapping transactions against a model of names, columns, privileges, locks, sequence positions and deferred removal; restart rebuilds everything from the stored metadata. Freedoms:
prepared statements are discarded when their table changes (docs/internal/ddl-dml-interaction.md); aborted transactions that ran DDL are not expected to undo it (documented);
CREATE INDEX is not run while an open transaction changed rows of the table; storages kept for removal after restart may be held by any open transaction;
DDL on tables with sequences runs in its own transaction; sequence positions are durable only by the commit of a transaction that drew from that sequence; after a failing INSERT the model re-reads sequence positions;
privileges named in one statement form a set and CONTROL absorbs the others; REVOKE from `*` clears public and everybody but the current user. Truncate failing at `storage_create` is left out of the fault facet.

### P29 SQL service
Wire messages to `service::operator()` from three sessions with session stores on or off, against a model of transactions, prepared statements, tables and answers; mutated requests must be answered once and harm nobody; at the end every handle is accounted for. Freedoms:
one transaction with changes at a time (the store stand-in is read-uncommitted); a failing query may or may not abort its transaction (asked by GetTransactionStatus, and then held to that answer); ExecuteStatement of a query may end in any way; a cancelled request may end normally or as OPERATION_CANCELED; permission and lock failures need not leave error information; f_damaged skips dump/load.

### P30 Key-value service
As P29 for the key-value requests, mixed with SQL on the same tables; a codec facet against the reference encoding; a threaded facet. Freedoms: with several errors any of them may be reported; octet columns and tables with secondary indexes are documented as not implemented;
tables without a primary key answer with a key mismatch; texts are ASCII (protobuf strings are UTF-8); key columns of a Get answer may be as sent (unpadded); NaN is NaN.

### P31 Loads and dumps
The requests of P29 with loads and dumps mixed in, over in-memory replacements of the Parquet/Arrow readers and writers (defined in load.cpp) that can fail at any open, write or close. A scheduler of the harness picks the order of tasks
and runs other tasks in the middle of a load step (what another worker would do) where the code hands over a statement or opens or reads a file. Oracle: the multiset of rows, files, names and types; leftovers. Freedoms: with several errors any of them may be reported; blocks of a load that failed may be applied in any number, each as a whole; loads with a query (nothing to insert) may end in any way.

### P32 Audit log
The histories of P29 with the event log compiled in, levels, duration threshold, plan recording and session attributes generated. After each request the new records are paired and compared with the request and its answer; at the end each transaction's records
are compared with what became of it. Freedoms: a transaction that is disposed of, or whose session ends, without a commit or rollback need not have an end (nothing asks for one); the end of a commit that waits for durability may be recorded during a later request;
a query whose rows could not be passed on after it ran may be recorded as done.

### P33 Settings
Any subset of the 54 settings of four sections, valid or with one invalid value, foreign sections mixed in; all 67 properties of the resulting configuration are compared with a table written from the settings' names and types, and with the defaults. The printed
form of a configuration is read back: it names exactly the properties that differ from the defaults. The resource that owns the engine is driven through setup, start, shutdown and destruction in every boot mode, with the store, the blob relay
and the database failing at generated points; a recorder in place of the database tells how often it was created, started and stopped, and with what. Freedom: the word used for a value's error in the log.

## Not covered, and why

No listed property is *not applicable*: each is decided by generated search. Parts of jogasaki no property speaks about, since they need libraries whose behaviour cannot be stood in for without writing them:
SQL text to statement (mizugaki/yugawara analysis and optimisation; statements reach the engine analysed), reading and writing the parquet/arrow format itself (arrow is missing; P31 replaces the readers and writers), crash recovery
inside limestone and conflict detection inside shirakami (only jogasaki's side of them is exercised, with generated failures and restarts), gRPC transport of user-defined functions, the files altimeter writes.
The thorough tier's libFuzzer stage is left out for the engine checks (one execution builds an engine: coverage guidance gains nothing over the structured generator at a few thousand executions a second).

## How the checks were tried

1. *Planted bugs* (`seeded/`, one directory each; `tools/seeds_src.py` is their source, `tools/seeds.py make|try` builds and runs them):

@SEEDS@

   Missed at first and then caught after strengthening: p08-latch-all (new facet with many waiters), p04-nested-names (nesting depth of generated messages 2 to 5).
2. *Mutation runs*: single-operator mutants (comparison, constant, removed statement, swapped branch) of the sources the checks compile, run in a scratch copy. The runs over P01-P12 were samples, not complete; of the survivors those that change behaviour
   led to new facets (regions and diagnostic records in P10), the others are equivalent (capacities, log text, unreachable defaults).
@MUT@
3. *Seed sweeps* on the unchanged tree, in addition to seed 1: see the table at the end.

## False alarms met and what was done

Every violation on the unchanged tree was replayed and traced to one of: a defect (then a fix: commit, see known_findings.txt), or a mistake of the harness, then corrected there. The latter: model too strict about the choice of an error among several (P20, P21, P24, P30),
time zone mixtures the analyser never produces (P21), whole-group mode of aggregations without aggregates (P27), NULL join keys without the key equality in the condition, which the analyser always adds (P27),
sequence positions after failing inserts (P28), AVAILABLE commits whose status is asked before durability (P29), NaN payloads compared textually (P30). The freedoms above record the outcome.

@SWEEP@
'''
import json,os
rows=["   | id | property | needs | found by |","   |---|---|---|---|"]
caught=json.load(open('/verif/tools/caught.json')) if os.path.exists('/verif/tools/caught.json') else {}
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    rows.append(f"   | {d} | {m['property']} | {m['needs'].replace('|','/')} | {caught.get(d,m['property'])} |")
body=body.replace('@SEEDS@',"\n".join(rows))
mut=open('/verif/tools/mut.md').read().rstrip() if os.path.exists('/verif/tools/mut.md') else ''
body=body.replace('@MUT@',mut) if mut else body.replace('@MUT@\n','')
sw=open('/verif/tools/sweep.md').read().rstrip() if os.path.exists('/verif/tools/sweep.md') else ''
body=body.replace('@SWEEP@',sw)
open(p,'w').write(head+body.rstrip()+"\n")
