# property: (technique, level, note)
CLAIMS = {
"C01": ("TLA+ specification (GCL.tla, Intervals.tla) checked with TLC; TLC validates histories of cursor questions recorded from the real code",
        "model_checking", "Intervals.tla/MCArray.tla: exhaustive over all lists and question histories up to the configured size; binding: real cursors over every storage form answer generated question histories and TLC accepts or rejects each answer against GCLTrace.tla."),
"C02": ("TLA+ definition of the operators' minimal solutions (GCL.tla) checked with TLC; every answer of the real operators validated by TLC",
        "model_checking", "MCGCL.tla enumerates all operand lists up to a size; the real operators are run on enumerated small and generated large operands and nestings, and TLC decides every recorded answer."),
"C03": ("TLA+ grammar and meaning of query text (QueryText.tla), optimizer rewrites model-checked (MCOptimizer.tla); parses and solutions recorded from the code validated by TLC",
        "model_checking", "Text is parsed by the specification and by the code; printed forms, phrases and optimized/unoptimized solutions recorded from the code are validated by TLC."),
"C04": ("TLA+ burrow specification (Store.tla); shard/compaction model (Shards.tla) shown to refine it with TLC; histories of the real burrow decided by TLC against StoreTrace.tla",
        "model_checking", "Shards.tla: exhaustive schedules of 3 transactions, merges and a reader; binding: seeded histories in six storage forms with long-held views and clones, and threads reading while others write and merge; TLC decides every answer."),
"C05": ("TLA+ burrow specification (Store.tla); shard/compaction model (Shards.tla) shown to refine it with TLC; histories of the real burrow decided by TLC against StoreTrace.tla",
        "model_checking", "As C04, with several writers, group commits and threads: a view must contain what was committed before it started and nothing whose commit had not been called (clock-bracketed calls)."),
"C06": ("TLA+ burrow specification with a crash action (Store.tla); every file operation of real histories is a crash point; recovered burrows decided by TLC against StoreTrace.tla",
        "model_checking", "An LD_PRELOAD file layer copies what a dying process leaves before and half-way through each file operation of seeded histories (commits, group commits, background merges, archiving, recovery itself); the real code reopens sampled states and continues, TLC decides."),
"C07": ("TLA+ burrow specification (Store.tla); shard/compaction model (Shards.tla) shown to refine it with TLC; histories of the real burrow decided by TLC against StoreTrace.tla",
        "model_checking", "Addresses found through marker annotations; TLC checks runs are disjoint and increasing, and every annotation and text range in every later view, over aborts, merges, reopening and concurrent writers."),
"C08": ("TLA+ burrow specification (Store.tla); shard/compaction model (Shards.tla) shown to refine it with TLC; histories of the real burrow decided by TLC against StoreTrace.tla",
        "model_checking", "Shards.tla with one transaction erasing and annotating; real burrows reopened, converted to archives with various chunk sizes and merged in the background; one known finding (ambiguous erasures)."),
"C09": ("TLA+ burrow specification (Store.tla); shard/compaction model (Shards.tla) shown to refine it with TLC; histories of the real burrow decided by TLC against StoreTrace.tla",
        "model_checking", "Erasure-heavy histories over own, committed and mixed ranges in every storage form, including reopening and archives; unambiguous erasures only (C08 records the ambiguous case)."),
"C10": ("TLA+ burrow specification (Store.tla); shard/compaction model (Shards.tla) shown to refine it with TLC; histories of the real burrow decided by TLC against StoreTrace.tla",
        "model_checking", "Abort-heavy histories with several writers, before and after ready, in memory and on disk, with reopening."),
"C11": ("TLA+ burrow specification over byte strings cut by the TLA+ tokenizer specification (Store.tla, Tokens.tla); recorded histories decided by TLC against TextTrace.tla and StaticTextTrace.tla",
        "model_checking", "Arbitrary bytes, tags, entities, malformed UTF-8 and NULs, in pieces and transactions of dynamic (six storage forms) and static burrows, before and after commit, compaction and reopening; TLC cuts each piece itself and decides every translated range. Known finding: xml pieces left inside a tag or entity."),
"C12": ("TLA+ burrow specification (Store.tla); shard/compaction model (Shards.tla) shown to refine it with TLC; histories of the real burrow decided by TLC against StoreTrace.tla",
        "model_checking", "Annotation-heavy histories with repeated, nested, unordered and long lists in every storage form."),
"C14": ("TLA+ specification of tokenization (Tokens.tla) with laws checked by TLC over all short texts (MCTokens); tokens, splits and skips of the real tokenizers decided by TLC",
        "model_checking", "Every text up to a length over a hostile alphabet, and long random ones (all code points' classes and foldings from Python's Unicode database); TLC decides every token, offset, length, skip and split."),
"C13": ("TLA+ specification of a static burrow (Static.tla, on Store.tla) with a recovery action; every file operation of real transactions is a crash point; recovered burrows decided by TLC against StaticTrace.tla",
        "model_checking", "The fault layer copies what a dying process leaves before and half-way through every file operation; the real code recovers sampled states with every legal decision (also crashing inside recovery), reopens and continues; other readers look during transactions; TLC decides every answer."),
"C15": ("TLA+ specification of stored JSON documents (Documents.tla: layout, paths, values, translation) with laws checked by TLC over all small documents; documents stored by the real code decided by TLC against DocumentsTrace.tla on the burrow specification",
        "model_checking", "MCDocuments.tla: exhaustive over documents to a depth; binding: generated hostile documents and near-documents, several to a transaction, in memory, on disk, reopened, compacted and archived; TLC lays each out itself and decides every path, word, value and translation."),
"C19": ("TLA+ model of the merge of two lists of shards with crashes (HazelMerge.tla) checked with TLC; archives opened alone, merged, interrupted at any file operation and restarted, decided by TLC against StoreTrace.tla (OpenArchive)",
        "model_checking", "HazelMerge.tla exhaustive (restart, sidecars, any set of features); binding: real archives of seeded histories opened on their own, merged at several levels with every file operation a crash point, restarted by the merge or by opening, and crashed again; TLC decides every answer."),
    "C16": ("TLA+ specification of ingesting a file (Ingest.tla: lines, fields, rows, shares) with the append algorithm model-checked over every interleaving (MCIngest); appends of real files decided by TLC against IngestTrace.tla",
        "model_checking", "MCIngest.tla: every file of up to 3 (5) lines, 3 (4) workers, every interleaving and crash; binding: hostile JSONL and TSV files and names appended with any number of threads, together, over reopenings, archives and crashes at file operations; TLC cuts each file itself and decides every answer, label, record and field."),
    "C17": ("TLA+ specification of term statistics (Forage.tla) with the foragers' algorithm model-checked over every division of the items (MCForage); foraging and every reported statistic of the real code decided by TLC against ForageTrace.tla",
        "model_checking", "MCForage.tla: every division of 4 (5) overlapping items over 2 (3) foragers' transactions, in any order of commits, with aborts; binding: random meadows foraged in parts, by tags, by hand-driven foragers at the same time, and by threads (over 66000 items); TLC cuts the items' texts itself and decides every frequency, list, cursor answer, idf, rsj and average length."),
    "C23": ("TLA+ specification of annotated ranking statistics (Annotated.tla) model-checked over growing collections (MCAnnotated); collections annotated by the real code, every reported statistic decided by TLC against AnnotatedTrace.tla",
        "model_checking", "MCAnnotated.tla: every history of growing and annotating six items, as a whole or range by range; binding: random collections in memory, on disk, static and of JSON documents (raw and translated), with gaps in their addresses, four kinds of annotation, contents, fields and weights, annotated and read again and again; TLC cuts and counts the texts itself. Erasure of counted items is left out."),
    "C22": ("TLA+ grammar and meaning of the infix language with its definitions (Infix.tla) checked with TLC over every short text (MCInfix); sessions of the real interpreter decided by TLC against InfixTrace.tla",
        "model_checking", "MCInfix.tla: every text of up to 4 (5) tokens; binding: every text of up to 3 tokens and many of 4, and random sessions with definitions, redefinitions, two interpreters and damaged texts; TLC parses each text itself and compares the returned query up to what cannot matter. Known finding: quoted text ending in a backslash."),
    "C18": ("TLA+ specification of configuration text (Recipe.tla) and of parameters (Params.tla) model-checked (MCRecipe, MCParams); texts, options and parameter histories of the real code decided by TLC against ParamsTrace.tla",
        "model_checking", "MCRecipe.tla: every value of up to 5 telling characters at three depths, every recipe of up to 10, every option of up to 7; MCParams.tla: every short history of settings, openings, archives and crashes; binding: hostile values, damaged recipes, options, and seeded histories over memory, disk and static burrows with clones, several openings, archives, merges, threads, and a crash at any file operation of a setting."),
    "C20": ("TLA+ specification of concurrent readers down to their caches (Cache.tla) model-checked (answers as a lone reader's; every read ends); the real code steered along behaviours of Cache.tla generated by TLC and let loose on cold caches, its answers decided by TLC against StoreTrace.tla and StaticTrace.tla",
        "model_checking", "MCCache: two or three readers, archived and other pieces, a merge and a commit, exhaustive with fairness; binding: hundreds of schedules from CacheWalk.tla, in which the starts of the library's threads and its reads of files are held and released, and rounds of up to 20 threads on cold caches, over memory, disk, archived, lone-archive and static collections."),
    "C21": ("TLA+ specification of ranked retrieval (Ranking.tla) with the scoring, sharing and tiering algorithms model-checked (MCRanking, MCTiers); rankings of the real code decided by TLC against RankingTrace.tla",
        "model_checking", "MCRanking.tla/MCTiers.tla: every set of containers and list of solutions over few positions, every division and depth; binding: random collections of every storage form ranked by shortest substring, in parallel, in tiers, by products, fused, at random depths and thread counts."),
}
NOT_YET = {}
