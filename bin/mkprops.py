#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays readable)."""
import json, os, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a,b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "A built font says exactly what the builder was told",
 "For every sequence of successful builder operations, the font produced by Build reports through its public accessors exactly the values given to the builder: header strings, versions and dates, metrics, glyph count, glyph placements, masks and names, dyes and palettes in order, settings with their options, switches, code point mappings, glyph and rune sets, rewrite rules and kerning. Nothing is dropped, duplicated, reordered or attributed to a different glyph, code point, setting or color. Building twice from the same builder state gives byte-identical font data.",
 ["histories","inputs"], "all sequences of public builder calls with accepted arguments, followed by Build",
 "TestBasicFontBuild builds two small fixed fonts and checks a handful of accessors; sections that are all empty in them (settings words, several palettes, vertical layout, switches, groups, sets, names) are never read back, and no test varies the order or number of builder calls.",
 ["builder/font_builder.go","builder/font_builder_mapping.go","builder/font_builder_settings.go","builder/font_builder_color.go","builder/font_builder_rewrite_sets.go","builder/font_builder_rewrite_rules.go","builder/font_builder_props.go","font.go"],
 [("Build section encoders","builder/font_builder.go Font.Build"),("runtime accessors","font.go FontHeader..FontKerning")],
 [("builder state","everything set so far","builder/font_builder.go Font")], ["builder.Font.Build","ggfnt.Font accessors"])

prop("C02", "Export then Parse returns the same font",
 "For every font the builder can build, exporting it and parsing the exported bytes succeeds and gives a font with byte-identical raw data and identical answers from every accessor. The result does not depend on how the reader splits the bytes into chunks or whether it returns data together with io.EOF. Exporting the parsed font again gives the same bytes.",
 ["inputs","configurations"], "all buildable fonts, all chunkings of the byte stream by an io.Reader that follows the io.Reader contract",
 "TestBasicFontBuild round-trips two fixed fonts through one bytes.Buffer; section length limits, optional sections and short reads are never exercised.",
 ["parse.go","internal/parsing_buffer.go","font.go"],
 [("Export","font.go Font.Export"),("Parse","parse.go Parse"),("incremental buffer","internal/parsing_buffer.go ParsingBuffer")], observe=["ggfnt.Parse","Font.Export"])

prop("C03", "Damaged font files are rejected with an error",
 "Parse never panics, hangs or returns a nil error for a stream that is not one complete font: every proper prefix of a font stream, a font stream whose decompressed data has missing or extra bytes, a wrong signature, a corrupt gzip layer and a reader failing at any offset all give a non-nil error. For a well-formed gzip layer with arbitrary content Parse accepts exactly the data whose sections consume every byte and respect the documented section bounds.",
 ["inputs","fault_sequences"], "every cut point, extension, failing offset, and arbitrary edits of section counts and lengths, for every font",
 "TestExpectedParsing only parses valid data; no test feeds a truncated, extended or mutated file.",
 ["parse.go","internal/parsing_buffer.go"],
 [("section walk","parse.go Parse"),("bounded reads and end-of-file check","internal/parsing_buffer.go readUpTo, EnsureEOF")], observe=["ggfnt.Parse"])

prop("C04", "Builder calls are all-or-nothing and never break the builder",
 "A builder operation that is refused (invalid glyph, code point, name, key, size, alpha or duplicate) reports the refusal (an error, a false or no-op result, or for the documented bad-argument cases of the switch mappings an argument panic) and leaves everything observable about the builder unchanged; an accepted one changes only what it names. No sequence of implemented public builder calls makes a later Build panic: Build returns an error or a font that Parse accepts.",
 ["histories"], "all sequences of public builder calls, with valid and invalid arguments mixed",
 "Tests call the builder only on the happy path with valid arguments and never look at the state after an error.",
 ["builder/font_builder.go","builder/font_builder_mapping.go","builder/font_builder_settings.go","builder/font_builder_color.go","builder/font_builder_rewrite_sets.go","builder/font_builder_rewrite_rules.go","builder/font_builder_props.go"],
 [("argument validation before mutation","builder package setters and adders")],
 [("registries","glyph UIDs, names, dyes, palettes, settings, switches, runes, sets, rules","builder/font_builder.go Font")], ["builder.Font methods"])

prop("C05", "Code points resolve to the group selected by the settings",
 "Looking up a code point reports a mapping exactly when one exists; the result is the glyph group the mapping lists for the case given by the current values of the switch's settings (mixed-radix combination, last setting least significant), with that group's size, animation flags, case and glyphs in the listed order. Ascii, Utf8 and Utf8WithCache always agree.",
 ["inputs","histories"], "all fonts, all code points mapped or not, all setting values, any order of lookups and setting changes",
 "Tests map a few letters unconditionally; no test uses a switch, a group with several glyphs, a range group, or more than one case.",
 ["font.go","settings_cache.go"],
 [("binary search","font.go FontMapping.Utf8/Utf8WithCache"),("switch evaluation","font.go FontMapping.EvaluateSwitch"),("staircase walk","font.go FontMapping.Utf8"),("group decoding","font.go GlyphMappingGroup.Select")], observe=["FontMapping.Utf8","FontMapping.Utf8WithCache","FontMapping.Ascii","GlyphMappingGroup"])

prop("C06", "The mapping cache is transparent, bounded and LRU",
 "Through a MappingCache every lookup returns exactly what the uncached lookup returns, for any sequence of lookups, setting changes followed by the required drop, and resets. The cache never holds more entries than its capacity, and when full it evicts the least recently used entry.",
 ["histories"], "all sequences of lookups, drops and resets, for all capacities",
 "No test touches the mapping cache.",
 ["mapping_cache.go"],
 [("linked LRU list","mapping_cache.go updateMRU"),("drop generation","mapping_cache.go Drop/Get")],
 [("entries","cached results with prev/next links","mapping_cache.go MappingCache")], ["MappingCache.Get"])

prop("C07", "Setting changes invalidate every cached decision",
 "After any sequence of setting reads, writes and cached evaluations, every mapping case or condition result served from the settings cache equals a fresh evaluation under the current setting values. A write is visible to the next read and writing one setting never alters another; cached decisions for different switches and conditions never mix.",
 ["histories"], "all sequences of Set, Get, and cached evaluations",
 "No test uses the settings cache.",
 ["settings_cache.go"],
 [("invalidation on change","settings_cache.go SettingsCache.Set"),("known bits","settings_cache.go + internal/helpers.go BoolList")],
 [("cached cases and conditions","settings_cache.go","settings_cache.go SettingsCache")], ["SettingsCache methods","Utf8WithCache"])

prop("C08", "Rewrite conditions evaluate as the boolean formulas they encode",
 "For every valid encoded condition (nested AND/OR groups, comparisons between two settings or a setting and a constant, and quick comparisons) and all setting values, evaluation terminates without panicking and returns the truth value of the formula, whatever its position in the condition table. Evaluating does not change anything.",
 ["inputs"], "all condition tables and all setting values",
 "No test evaluates a condition.",
 ["font.go"],
 [("recursive evaluation with short circuit","font.go FontRewrites.EvaluateCondition")], observe=["FontRewrites.EvaluateCondition"])

prop("C09", "Glyph rewriting applies exactly the winning rule, leftmost first",
 "For every set of glyph rules and every input sequence, the emitted glyph sequence is the one obtained by scanning left to right and, at each position, applying the longest matching rule whose condition is currently satisfied, replacing its body by its output and leaving head and tail in place, with the emitted tail still available to later matches as (part of) their head but never rewritten again. Of the rules sharing a condition, the lowest-index one is the candidate for each matched length and the longest candidate whose head covers the already emitted elements wins; among different conditions the lowest rule index wins. An element is held back (pending) only while some applicable rule could still match with more input. Glyphs not consumed by a rule come out once, unchanged and in order; nothing is lost, duplicated or invented.",
 ["inputs","programs"], "all finite rule sets (heads, bodies, tails, literals and sets), all condition values, all input sequences",
 "TestTester runs a handful of fixed rule lists without sets or conditions; TestTesterSet is not in the stable list.",
 ["internal/rerules/glyphrule/tester.go","internal/rerules/glyphrule/decision_tree_compiler.go","internal/rerules/glyphrule/decision_tree_state.go","internal/rerules/glyphrule/rule_scanner.go","rerules/glyph_tester.go"],
 [("rule to decision tree compilation","internal/rerules/glyphrule/decision_tree_compiler.go"),("match loop and rewrite","internal/rerules/glyphrule/tester.go"),("pending buffer","internal/circular_buffer.go")],
 [("pending glyphs","fed but not yet emitted","internal/rerules/glyphrule/tester.go Tester")], ["rerules.GlyphTester.Feed/Break/FinishSequence"])

prop("C10", "Code point rewriting applies exactly the winning rule, leftmost first",
 "The code point rewriter follows the same left-to-right longest-match semantics (including ties, conditions and holding back elements only while a rule could still match) as the glyph rewriter for every rule set and input, including code points above the 16-bit range and rune sets with ranges and lists. Invalid code points are refused without disturbing the sequence in progress; everything else comes out once and in order.",
 ["inputs","programs"], "all finite utf8 rule sets, all condition values, all code point sequences",
 "There is no test at all for the code point rewriter.",
 ["internal/rerules/utf8rule/tester.go","internal/rerules/utf8rule/decision_tree_compiler.go","internal/rerules/utf8rule/decision_tree_state.go","internal/rerules/utf8rule/rule_scanner.go","rerules/utf8_tester.go"],
 [("rule to decision tree compilation","internal/rerules/utf8rule/decision_tree_compiler.go"),("match loop and rewrite","internal/rerules/utf8rule/tester.go")], observe=["rerules.Utf8Tester.Feed/Break/FinishSequence"])

prop("C11", "Rewriting depends only on the current rules, never on history",
 "After any history of adding and removing rules, changing settings, running, breaking and finishing sequences, a tester gives for a new sequence exactly the output a fresh tester with the same rules, in the same order, and the same conditions would give. Break and FinishSequence flush everything still pending, so no glyph or code point leaks into a later sequence. Conditions refreshed in the middle of a sequence govern every match begun afterwards, and refreshing never disturbs what is already pending.",
 ["histories"], "all interleavings of AddRule, RemoveRule, RemoveAllRules, RefreshConditions, Resync, BeginSequence, Feed, Break and FinishSequence",
 "TestTester reuses one tester only through RemoveAllRules and complete sequences.",
 ["internal/rerules/glyphrule/tester.go","internal/rerules/utf8rule/tester.go"],
 [("resync and lazy recompilation","tester.go Resync/resync"),("flush","tester.go Break/FinishSequence")], observe=["rerules testers"])

prop("C12", "Testers accept exactly the legal call order",
 "A sequence can begin only when none is operating, and Feed, Break and Finish are refused when none is operating; rule changes are refused while a sequence is operating. A refused call reports it (an error, or a panic for calls in the wrong operating state) and changes nothing: rule count, operating flag, pending count and the eventual output are as if it had never been made, and a rule that cannot be used (malformed, or referring to an unknown set) is reported as an error rather than a panic and leaves the tester usable.",
 ["histories"], "all sequences of public tester calls, legal and illegal",
 "No test makes an illegal call.",
 ["internal/rerules/glyphrule/tester.go","internal/rerules/utf8rule/tester.go","rerules/glyph_tester.go","rerules/utf8_tester.go"],
 [("operating flag checks","tester.go BeginSequence/Feed/Break/FinishSequence/AddRule/RemoveRule")],
 [("isOperating","sequence in progress","tester.go Tester")], ["rerules testers"])

prop("C13", "Independent testers do not influence each other",
 "Any number of testers working concurrently or interleaved, over the same or different fonts, each produce exactly the outputs and errors they would produce alone, with no data race and no deadlock; shared compilers and parsers behind them are handed to one user at a time.",
 ["schedules"], "all interleavings of two or more testers compiling and running",
 "Tests run one tester on one goroutine.",
 ["internal/single_instance_pool.go","internal/rerules/glyphrule/decision_tree_compiler.go","internal/rerules/glyphrule/tester.go","internal/rerules/utf8rule/tester.go"],
 [("compare-and-swap single instance pool","internal/single_instance_pool.go")], [("pool slot","shared compiler or nil","internal/single_instance_pool.go")], ["rerules testers on several goroutines"])

prop("C14", "Glyph masks survive encoding bit for bit",
 "For every glyph mask within the format's coordinate limits, encoding it into raster operations and rasterizing them gives a mask with the same tight bounds and the same alpha value at every pixel, whatever the position of the mask relative to the origin or of the image within a larger image. Encoding is deterministic and leaves the source image untouched; an encoder can be reused for any number of masks.",
 ["inputs","histories"], "all masks with coordinates in range and any alpha values, any encoder reuse",
 "TestEncoder and TestRngRasterize use small images and a fixed seed and mostly binary alphas.",
 ["mask/encoder.go","mask/encoder_helper_funcs.go","mask/rasterize.go","mask/compute_rect.go"],
 [("greedy op encoder","mask/encoder.go AppendRasterOps"),("op interpreter","mask/rasterize.go Rasterize")], observe=["mask.Encoder","mask.Rasterize","FontGlyphs.RasterizeMask"])

prop("C15", "Raster operation streams draw what the format defines",
 "Every well-formed raster operation stream is rasterized to exactly the image defined by executing its operations one by one from the origin with full opacity: move, pre-move, draw row or column, draw rectangle, single pixels, diagonals and alpha changes. Every truncated or undefined stream is rejected with an error, never a panic and never a partial image.",
 ["inputs"], "all byte streams",
 "Rasterize is only run on streams produced by the encoder, which uses a subset of the operations.",
 ["mask/rasterize.go","mask/raster_fragment.go"],
 [("control byte decoding","mask/rasterize.go")], observe=["mask.Rasterize"])

prop("C16", "Kerning and glyph names are found exactly when defined",
 "For every font, horizontal and vertical kerning lookups return the stored value for exactly the stored ordered pairs and zero for all others, and the name lookup returns the glyph of that exact name and 'missing' for every other string. This holds for any number of entries, including none and one.",
 ["inputs"], "all kerning and name tables, all queried pairs and names",
 "TestBasicFontBuild checks a single kerning pair and no test looks up a glyph name.",
 ["font.go","builder/font_builder.go"],
 [("binary searches","font.go FontKerning.Get/GetVert, FontGlyphs.FindIndexByName")], observe=["FontKerning","FontGlyphs.FindIndexByName"])

prop("C17", "The pending-glyph queue is a faithful double-ended FIFO",
 "For every sequence of pushes, pops at either end, peeks, confirmations, discards, clears and capacity changes that fit the capacity, the circular buffer behaves as a plain queue: same contents, same order, same size, peeks visit successive elements without removing them. Changing the capacity never loses or reorders elements that still fit.",
 ["histories"], "all operation sequences, all capacities, all wrap-around positions",
 "TestCircularBufferU16 runs one scripted sequence.",
 ["internal/circular_buffer.go"],
 [("head/tail indices modulo capacity","internal/circular_buffer.go")], [("head, tail","positions in the ring","internal/circular_buffer.go CircularBufferU16")], ["internal.CircularBufferU16"])

prop("C18", "Sets and rules read back exactly as encoded",
 "Iterating a glyph or rune set of any parsed font yields exactly its ranges and listed elements, each once, in stored order, stopping at the first error from the callback; iterating a rule's output yields exactly its output elements; and rule equality is true exactly for identical rules.",
 ["inputs"], "all encoded sets and rules",
 "No test reads a set or a rule back from a font.",
 ["font.go"],
 [("EachRange, EachList*, EachOut","font.go")], observe=["FontRewrites accessors"])

prop("C19", "Dates are valid exactly when they exist in the calendar",
 "For every year, month and day value, date validity never panics and is true exactly for the unset date, a year alone, a year and month, or a day that exists in that month with the Gregorian leap year rule; and every such date stored in a font header is read back unchanged.",
 ["inputs"], "all (year, month, day) triples",
 "TestLeapYears checks a few years and no test validates a date.",
 ["date.go","builder/font_builder_props.go"],
 [("calendar checks","date.go Date.IsValid")], observe=["Date methods","builder date setters"])

prop("C20", "Edition data loads completely or not at all",
 "Parsing edition data into a builder either succeeds, and then later built fonts carry exactly the kerning of the described class pairs on top of the builder's own pairs, or fails with an error and leaves the builder without any edition data, its later built fonts being exactly those of the same builder that never saw edition data. It never panics, for any stream, including streams that are truncated, extended, or refer to glyphs or classes that do not exist.",
 ["inputs","fault_sequences"], "all edition data streams against all builder states",
 "No test parses edition data.",
 ["builder/font_builder.go","internal/parsing_buffer.go"],
 [("edition data parser","builder/font_builder.go ParseEditionData")], observe=["builder.Font.ParseEditionData","builder.Font.Build"])

prop("C21", "Fonts can be shared, and nothing else is",
 "A font never changes once it has been built or parsed: all its accessors give the same answers to any number of goroutines asking at once, whatever is built, parsed, exported, looked up or rasterized elsewhere. Builders, settings caches, mapping caches, mask encoders, parses and exports of different users, working concurrently or in turns, over the same font or over different ones, give each user exactly what it would get alone, with no data race. Fonts, masks and raster codes handed out earlier stay what they were.",
 ["schedules","histories"], "all interleavings of the calls of two or more users of separate objects, and of readers of one font",
 "Tests use one object at a time on one goroutine and drop it before the next.",
 ["font.go","parse.go","settings_cache.go","mapping_cache.go","builder/font_builder.go","mask/encoder.go","mask/rasterize.go","internal/parsing_buffer.go"],
 [("the data slice of a font is read only","font.go"),("memory of builders and encoders is their own","builder/font_builder.go, mask/encoder.go")], observe=["every public function but those of testers (C13)"])

prop("C22", "Text is drawn as the whole font prescribes",
 "For every font, setting values and text: rewriting the code points of the text, looking each result up under the current settings (directly, through the settings cache or through a mapping cache), choosing a glyph of the group, rewriting the glyphs and asking the font for their advances and kerning gives exactly the glyphs, advances and kerning that the font's rules, mappings and tables prescribe for the text as a whole. That depends on the text, the rules in use and the current setting values alone: not on how the text is cut into feeds, which of the lookups is used, the texts drawn and settings used before (once a change of settings was announced), other texts drawn at the same time over the same font or settings, or whether the font was built, parsed or both. A change announced in the middle of a text affects what is decided afterwards and nothing else: a match already begun, and code points already looked up, stay as they were.",
 ["inputs","histories"], "all fonts, texts, setting values and histories of changes between texts and within them",
 "No test connects rewriting, mapping, caches and metrics.",
 ["rerules/utf8_tester.go","rerules/glyph_tester.go","font.go","mapping_cache.go","settings_cache.go","builder/font_builder.go"],
 [("cached decisions are those of the current settings","settings_cache.go, mapping_cache.go, rerules RefreshConditions"),("streaming gives what the whole text gives","rerules testers")], observe=["Utf8Tester","GlyphTester","FontMapping","MappingCache","SettingsCache","FontGlyphs.Advance","FontKerning"])

prop("C23", "What a font does not define is refused",
 "For every font and every kind of thing it defines (dyes, palettes, glyphs with their advances, placements and masks, settings and their options, mapping switches, glyph choices of a mapped code point, rewrite conditions, rewrite rules, code point and glyph sets), asking under a key or index that the font defines answers, and asking under any other (one past the end, the largest possible, or anything in between) panics, or answers neutrally where that is the contract (no options, setting value zero): never with data of something else. This holds for tables with no entries, one entry and as many as the format allows. A refused question changes nothing: setting values and later answers are what they would have been without it.",
 ["inputs","histories"], "all fonts, kinds, keys and indices, in any order",
 "No test asks a font for anything it does not define.",
 ["font.go","settings_cache.go"],
 [("range checks of keys and indices","font.go, settings_cache.go")], observe=["FontColor","FontGlyphs","FontSettings","FontMapping","GlyphMappingGroup.Select","FontRewrites","SettingsCache"])

open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w").write("".join(json.dumps(p)+"\n" for p in P))
