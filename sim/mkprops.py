#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
                 "mechanism":[{"name":a,"where":b} for a,b in mech],
                 "observe_at":list(observe),"hook_needed":None}})

p("C01","Parse outcome does not depend on internal evaluation order",
  "Parsing a text with a grammar has exactly one outcome: the accept/reject/ambiguous verdict, the whole tree (structure, text, flags, positions) and the error text are the same on every run, whatever order the competing root rules or any unordered collection inside the library happens to be visited in. When several root rules, or several alternatives of one group of a choice, match at the same place, the one consuming most characters wins, and an ambiguity is reported exactly when that longest match is shared, whatever order they are written or tried in.",
  ["schedules","inputs","programs"],
  "every grammar with one or more root rules, every text, every visiting order the Go runtime may pick for the library's unordered collections, repeated parses in one process",
  "Go randomises map iteration per loop; a unit test runs one random order per execution, and most tests use a single root rule so only one order exists.",
  ["grammar.go","rule.go"],
  [("root rule competition","grammar.go EvalRaw"),("greedy selection","rule.go mostGreedy, rule_choice.go Eval")],
  [("rootRules","rules that compete at top level","grammar.go Grammar")],
  ["Grammar.EvalRaw","Grammar.Eval"])
p("C02","Backtracking never loses, repeats or reorders stream characters",
  "However much look-ahead rules read and give back, every character of the stream is matched exactly once and in order: an accepted parse covers the whole input with the tree the grammar defines for that text, and the text of its nodes is what stood in the input. A text is rejected only when no root rule matches at some point (or the longest match is ambiguous), never because an earlier alternative, option, repetition, block or root rule consumed characters it did not use.",
  ["inputs","programs","schedules","fault_sequences"],
  "every non-left-recursive grammar, every text, every stream delivery (chunking, stalls, streams whose Match reads ahead) and every visiting order of competing root rules",
  "The tests use a few hand-written grammars where look-ahead is shallow; loss or duplication needs an alternative that reads far, gives back, and a successor that reads less or more than what was given back.",
  ["grammar.go","rule.go","rule_choice.go","rule_concatenate.go","rule_repetition.go","rule_block.go","rule_option.go","charstream.go"],
  [("put-back stream","charstream.go newCharstreamPrepend"),("read/unused accounting","rule_*.go Eval")],
  [("CharsRead/CharsUnused","what an evaluation took and gives back","rule.go EvalResult")],
  ["Grammar.EvalRaw","Node tree"])
p("C03","A rule evaluation accounts exactly for what it took from the stream",
  "After evaluating a single rule on a caller's stream, the reported read characters are exactly, in order, the characters that left the stream during the call, and the reported unused characters are a tail of them (all of them when the rule did not match). A caller that puts the unused characters back and evaluates further rules therefore sees the same session result as the rules define on the text itself, for any sequence of evaluations.",
  ["histories","inputs","programs","fault_sequences"],
  "every rule kind and nesting, every text and leading-space mode, every sequence of evaluations with put-back on one stream, with streams ending early at any character",
  "Tests compare the matched text of isolated evaluations; the accounting matters only to the next evaluation on the same stream, and only for unusual look-ahead.",
  ["rule.go","rule_block.go","rule_choice.go","rule_concatenate.go","rule_repetition.go","rule_terminal_char.go","rule_terminal_chars.go","rule_terminal_range.go","rule_terminal_string.go","rule_option.go","rule_group.go","rule_eof.go"],
  [("EvalResult accounting","rule_*.go Eval")],
  [("CharsRead/CharsUnused","what an evaluation took and gives back","rule.go EvalResult")],
  ["IRule.Eval result","stream cursor"])
p("C04","Cut-off and damaged streams are judged by what was delivered",
  "A stream that ends at any character, or carries replaced, dropped or repeated characters, is parsed exactly as its delivered text would be: the parse ends with a complete tree for that text or an error, never a panic, a hang, or a tree that silently omits or invents delivered characters. Slow or bursty delivery changes nothing but time.",
  ["fault_sequences","crash_points","inputs"],
  "every truncation point, corruption, drop, duplication and arrival pattern of the character stream, for every non-left-recursive grammar",
  "Tests feed complete well-formed strings and a handful of malformed ones; end-of-stream inside each construct with each look-ahead state is combinatorial.",
  ["charstream.go","grammar.go","rule_block.go","rule_repetition.go","rule_eof.go","rule_terminal_char.go"],
  [("end-of-stream handling","EOFChar tests in rule_*.go and charstream.go")],
  [],["Grammar.EvalRaw over a custom character stream"])
p("C05","Concurrent parses over one grammar do not influence each other",
  "Any number of goroutines may use one finished grammar at the same time, each on its own stream, and each gets exactly the result it would get alone. No schedule of such parses, evaluations, look-ups, dumps and tree simplifications produces a wrong result, data race, deadlock or crash.",
  ["schedules","inputs","histories"],
  "every interleaving of concurrent parses, rule evaluations, embedded scans and dumps on a shared finished grammar, including parses stalled on slow streams or aborted midway",
  "No test parses concurrently; a shared scratch field, cache or in-place annotation would need a specific preemption between two statements to show.",
  ["grammar.go","rule.go","rule_reference.go","rule_choice.go","rule_block.go","node.go"],
  [("evaluation keeps all state in locals and results","rule_*.go Eval, grammar.go EvalRaw")],
  [("Grammar","shared, read-only after construction","grammar.go")],
  ["results of concurrent Grammar.Eval/EvalRaw/EvalRule/EvalEmbed/Serialize"])
p("C06","An aborted or failed parse leaves no trace",
  "If a parse fails, or is torn down midway because its stream panics at any operation, the panic or error reaches the caller and nothing else is affected: the grammar and every later or concurrent parse behave as if the aborted parse had never started. No lock, partial tree, counter or cached result of the aborted parse survives.",
  ["crash_points","histories","schedules"],
  "every abort point (stream operation at which the parse dies) in every parse, followed or accompanied by any other parses on the same grammar",
  "Tests never abort a parse at a chosen stream operation and rarely reuse a grammar after a failed parse.",
  ["grammar.go","rule.go","rule_reference.go","charstream.go"],
  [("no state outside the call","grammar.go EvalRaw, rule_*.go Eval")],
  [],["later parses on the same grammar","panic propagation"])
p("C07","The string stream is linearizable under concurrent use",
  "Concurrent calls on one string stream behave as if executed one at a time in some order consistent with real time: each character is delivered to exactly one taker, multi-character matches and space skips are indivisible, and the reported cursor and positions fit that order. No interleaving loses or repeats a character, races, deadlocks or corrupts the line bookkeeping.",
  ["schedules","histories","inputs"],
  "every interleaving of concurrent reads, previews, matches, space skips, cursor, position and position look-up calls on one stream over every text",
  "The stream tests are single-threaded, so the documented thread-safety is never exercised.",
  ["charstream.go"],
  [("per-stream lock","charstream.go CharstreamString.lock")],
  [("cursor, positionMap","shared stream state","charstream.go CharstreamString")],
  ["ICharstream calls on NewCharstreamFromString"])
p("C08","Positions are the true line and column despite look-ahead and observers",
  "Every node that matched text reports the line and column at which its first matched character (not skipped leading space) stands in the input, and a stream's position and look-up of any already read index are the true line and column. This does not depend on how far rules looked ahead and gave back, on line breaks before or after, or on other observers asking for positions while the parse runs.",
  ["inputs","programs","histories","schedules"],
  "every text with any line structure, every grammar and look-ahead pattern, every history of stream operations, every interleaving with observers of the stream",
  "Position tests check a few nodes on mostly one-line inputs, without look-ahead across line breaks and without concurrent observers.",
  ["charstream.go","node.go","rule_terminal_char.go","rule_terminal_chars.go","rule_terminal_range.go","rule_terminal_string.go","rule_group.go","rule_block.go","rule_option.go","rule_concatenate.go","rule_repetition.go","rule_choice.go"],
  [("line index","charstream.go positionMap"),("position assignment","rule_*.go Eval")],
  [("positionMap.lines","newline indexes seen so far","charstream.go")],
  ["Node.Position","ICharstream.Position","ICharstream.PositionLookup"])
p("C09","Loading a grammar file is all or nothing under I/O faults",
  "Loading a grammar from a file either yields exactly the grammar the complete file defines or an error and no grammar; short reads, interrupted or failing system calls and wrong size hints never yield a grammar built from part of the file. The file handle is released on every path, and a later load without faults succeeds.",
  ["fault_sequences","crash_points","inputs"],
  "every sequence of short, interrupted and failing open/stat/read calls at every point of the load, for valid and invalid grammar files of any size",
  "The tests never inject I/O faults; the real disk returns whole files.",
  ["grammar.go"],
  [("whole-file read before parsing","grammar.go NewGrammarFromFile")],
  [],["NewGrammarFromFile result","open file handles"])
p("C10","A rejected rule definition changes nothing",
  "If adding a rule definition fails, for whatever reason and wherever in its text the failure lies, the grammar afterwards is indistinguishable from one on which the attempt was never made: same rules, same references, same roots, same validation verdict, same dumps and same parses. In particular the name stays free for a later correct definition.",
  ["histories","fault_sequences","crash_points","inputs"],
  "every history of accepted and rejected definitions (cut off, corrupted, duplicate or badly named) followed by any use of the grammar",
  "Tests check that bad definitions are refused, never the state of a grammar that is used further afterwards.",
  ["grammar.go","rule_reference.go"],
  [("definition commit","grammar.go ParseRule, AddRule"),("usage recording","rule_reference.go inReference, grammar.go AddUsage")],
  [("ruleRecords, nonRoots","defined and referenced rules","grammar.go Grammar")],
  ["Validate, Serialize, EvalRaw after a failed AddRule/ParseRule"])
p("C11","A grammar grown step by step equals one built at once",
  "After validation a grammar's root rules, terminals and references are those of its current rule set, so adding rules and validating in any number of steps gives the same verdict, roots, relations and parses as defining the same rules at once. Validating is repeatable and a failed validation can be followed by completing the grammar.",
  ["histories","programs","inputs"],
  "every order and grouping of rule additions and validations, with parses in between, ending in the same rule set",
  "Tests build grammars in one go; rules added after a validation (as the command line tool does) are not tested.",
  ["grammar.go","rule_reference.go","main/xbnf.go"],
  [("root and terminal computation","grammar.go Validate")],
  [("rootRules, terminals","derived from rule references","grammar.go Grammar")],
  ["Validate","Serialize/StringRuleRelation","EvalRaw"])
p("C12","The command line tool never shows a tree for content it did not fully read",
  "For every input file it processes the tool prints either the tree of the file's complete content or an error for it; under failing, short or interrupted system calls it never prints a tree of partial content or of another input, and never crashes. What it prints for one input does not depend on the other inputs of the same invocation.",
  ["fault_sequences","crash_points","histories"],
  "every sequence of I/O faults while reading the grammar file and the input files, for every combination of files, texts and extra rules",
  "The single command line test only checks that arguments parse; nothing injects faults or checks the printed trees.",
  ["main/xbnf.go","grammar.go"],
  [("read whole file then parse","main/xbnf.go main")],
  [],["standard output of the tool"])
p("C13","Every returned result is independent of all others",
  "Trees and results returned to callers belong to them: simplifying, editing or overwriting one never changes another tree (from the same or another parse), the grammar, or any later parse, also when this happens while other parses run. Conversely later parses never alter a tree already returned.",
  ["histories","schedules","inputs"],
  "every history and interleaving of parses, simplifications and arbitrary edits of returned trees on a shared grammar",
  "Tests use each tree once and throw it away.",
  ["node.go","ast.go","rule_reference.go","rule_terminal_chars.go","rule_terminal_string.go","rule_eof.go","grammar.go"],
  [("nodes and their text are freshly allocated per evaluation","rule_*.go Eval")],
  [],["trees returned by Grammar.Eval/EvalRaw/EvalRule/EvalEmbed"])
p("C14","Diagnostics and dumps are reproducible",
  "Dumping a grammar, listing its rule relations, and every error message of building, validating or loading a grammar depends only on the definitions given, in the order given: it is byte-for-byte the same on every run, whatever order the library's unordered collections are visited in.",
  ["schedules","programs","histories"],
  "every grammar (including ones with several undefined references or several roots), every visiting order of the library's unordered collections",
  "A unit test sees one random map order per run and the dump is not compared with anything.",
  ["grammar.go"],
  [("dump and validation","grammar.go Serialize, StringRuleRelation, Validate, desc")],
  [],["Serialize","StringRuleRelation","Validate error","NewGrammarFromString error"])
p("C15","Every parse makes progress and ends",
  "For every grammar without left recursion, including rules that can match nothing, a parse, rule evaluation or embedded scan ends within a number of steps bounded by the grammar and the delivered text once the stream has ended; it ends with a result or an error, never by looping, exhausting memory or deadlocking. A stalled stream stalls only the parse that reads it.",
  ["inputs","programs","fault_sequences","schedules"],
  "every non-left-recursive grammar (nullable repetitions, options, blocks, roots), every text, every truncation and stall of the stream",
  "A test that loops is simply not written; nullable elements inside repetitions, roots and embedded scans are not tested.",
  ["grammar.go","rule_repetition.go","rule_block.go","rule_option.go"],
  [("loop exits","rule_repetition.go Eval, grammar.go EvalRaw and EvalEmbed, rule_block.go Eval")],
  [],["termination of Grammar.EvalRaw/EvalRule/EvalEmbed"])
p("C16","An embedded scan partitions its sample",
  "Scanning a sample for embedded matches yields, in order, matched nodes and stretches of free text that together account for every character of the sample exactly once; a match is taken at the earliest character where the rule matches there, and the scan resumes right behind it. This holds however far failed attempts looked ahead, and for concurrent scans.",
  ["inputs","programs","histories","schedules"],
  "every rule, every sample, every look-ahead pattern of failed attempts between matches, concurrent scans on one grammar",
  "Two tests scan short samples; a failed attempt that reads far and gives back, directly before a match, is not covered.",
  ["grammar.go","charstream.go"],
  [("scan loop","grammar.go EvalEmbed")],
  [],["Grammar.EvalEmbed"])
# ---- not claimed: pure functions
def na(id,title,statement,files,why):
    p(id,title,statement,["inputs","programs"],"every grammar text / tree",why,files,[("see files",files[0])])
na("C21","Rule text round trip","The printed definition of a rule, parsed again, gives a rule that accepts the same texts with the same trees.",["rule.go","rule_block.go","rule_choice.go"],"Needs all rule shapes, not samples.")
na("C22","Simplification preserves data","Simplifying a tree at any level keeps every data character in order and is idempotent.",["node.go","ast.go"],"Needs all tree shapes.")
na("C23","Grammar text is fully checked","A malformed rule definition is reported with an error at definition time; no grammar text makes the library panic.",["grammar.go"],"Needs all malformed texts.")
na("C24","Left recursion is refused","A left-recursive grammar is reported instead of exhausting the stack.",["grammar.go","rule_reference.go"],"Tests contain no left recursion.")
na("C25","Repetition bounds are honoured","A bounded repetition matches at least its minimum and at most its maximum number of times.",["rule_repetition.go"],"Needs all bounds.")
na("C26","Annotations toggle as documented","Token, virtual and non-data annotations set on a rule and its references combine as documented.",["rule_reference.go","rule.go"],"Needs all combinations.")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
