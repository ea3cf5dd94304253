------------------------------- MODULE FoliaTables -------------------------------
\* The FoLiA vocabulary as far as the behavioural specification needs it. One record per element type:
\*  tag    XML tag                      ann   annotation type ("" if it has none)
\*  g      element groups it is in      acce / accg   types and groups it accepts as children
\*  wref   may be referenced by wref    hid / pr      hidden / printable (text)
\*  tc/pc  text / phonetic container    delim / spc   text delimiter (<<>> if inherited) / honours @space
\*  sub    subset it stands for (typed features)
LOCAL INSTANCE Sequences

ET == [
  ActorFeature |-> [tag |-> "actor", ann |-> "", g |-> {"Feature"}, acce |-> {"Comment", "Description"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<"actor">>],
  Alternative |-> [tag |-> "alt", ann |-> "ALTERNATIVE", g |-> {"HigherOrder"}, acce |-> {"Comment", "Correction", "Description", "ForeignData", "MorphologyLayer", "PhonologyLayer"}, accg |-> {"Inline"}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  AlternativeLayers |-> [tag |-> "altlayers", ann |-> "ALTERNATIVE", g |-> {"HigherOrder"}, acce |-> {"Comment", "Description", "ForeignData"}, accg |-> {"Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  BegindatetimeFeature |-> [tag |-> "begindatetime", ann |-> "", g |-> {"Feature"}, acce |-> {"Comment", "Description"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<"begindatetime">>],
  Caption |-> [tag |-> "caption", ann |-> "", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Gap", "Linebreak", "Metric", "Paragraph", "Part", "PhonContent", "Quote", "Reference", "Relation", "Sentence", "String", "TextContent", "Whitespace"}, accg |-> {"Inline", "Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"\n\n">>, spc |-> TRUE, sub |-> <<>>],
  Cell |-> [tag |-> "cell", ann |-> "", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Entry", "Event", "Example", "External", "Feature", "Figure", "ForeignData", "Gap", "Head", "Hiddenword", "Linebreak", "List", "Metric", "Note", "Paragraph", "Part", "Quote", "Reference", "Relation", "Sentence", "String", "TextContent", "Whitespace", "Word"}, accg |-> {"Inline", "Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<" | ">>, spc |-> TRUE, sub |-> <<>>],
  Chunk |-> [tag |-> "chunk", ann |-> "CHUNKING", g |-> {"Span"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "WordReference"}, accg |-> {"Inline"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  ChunkingLayer |-> [tag |-> "chunking", ann |-> "CHUNKING", g |-> {"Layer"}, acce |-> {"Chunk", "Comment", "Correction", "Description", "ForeignData"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Comment |-> [tag |-> "comment", ann |-> "COMMENT", g |-> {"HigherOrder"}, acce |-> {"Comment", "Description"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Content |-> [tag |-> "content", ann |-> "RAWCONTENT", g |-> {"Content"}, acce |-> {"Comment", "Description"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  CoreferenceChain |-> [tag |-> "coreferencechain", ann |-> "COREFERENCE", g |-> {"Span"}, acce |-> {"Comment", "CoreferenceLink", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation"}, accg |-> {"Inline"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  CoreferenceLayer |-> [tag |-> "coreferences", ann |-> "COREFERENCE", g |-> {"Layer"}, acce |-> {"Comment", "CoreferenceChain", "Correction", "Description", "ForeignData"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  CoreferenceLink |-> [tag |-> "coreferencelink", ann |-> "COREFERENCE", g |-> {"SpanRole"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "Headspan", "LevelFeature", "LinkReference", "Metric", "ModalityFeature", "Relation", "TimeFeature", "WordReference"}, accg |-> {"Inline"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Correction |-> [tag |-> "correction", ann |-> "CORRECTION", g |-> {"HigherOrder"}, acce |-> {"Comment", "Current", "Description", "ErrorDetection", "Feature", "ForeignData", "Metric", "New", "Original", "Suggestion"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Cue |-> [tag |-> "cue", ann |-> "", g |-> {"SpanRole"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "WordReference"}, accg |-> {"Inline"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Current |-> [tag |-> "current", ann |-> "CORRECTION", g |-> {"CorrectionChild"}, acce |-> {"Comment", "Correction", "Description", "ForeignData", "Metric", "PhonContent", "String", "TextContent"}, accg |-> {"Inline", "Span", "Structure"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Definition |-> [tag |-> "def", ann |-> "DEFINITION", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "Figure", "ForeignData", "Hiddenword", "Linebreak", "List", "Metric", "Paragraph", "Part", "PhonContent", "Reference", "Relation", "Sentence", "String", "Table", "TextContent", "Utterance", "Whitespace", "Word"}, accg |-> {"Inline", "Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"\n\n">>, spc |-> TRUE, sub |-> <<>>],
  DependenciesLayer |-> [tag |-> "dependencies", ann |-> "DEPENDENCY", g |-> {"Layer"}, acce |-> {"Comment", "Correction", "Dependency", "Description", "ForeignData"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Dependency |-> [tag |-> "dependency", ann |-> "DEPENDENCY", g |-> {"Span"}, acce |-> {"Comment", "DependencyDependent", "Description", "Feature", "ForeignData", "Headspan", "LinkReference", "Metric", "Relation"}, accg |-> {"Inline"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  DependencyDependent |-> [tag |-> "dep", ann |-> "", g |-> {"SpanRole"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "WordReference"}, accg |-> {"Inline"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Description |-> [tag |-> "desc", ann |-> "DESCRIPTION", g |-> {"HigherOrder"}, acce |-> {"Comment", "Description"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Division |-> [tag |-> "div", ann |-> "DIVISION", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Division", "Entry", "Event", "Example", "External", "Feature", "Figure", "ForeignData", "Gap", "Head", "Linebreak", "List", "Metric", "Note", "Paragraph", "Part", "PhonContent", "Quote", "Reference", "Relation", "Sentence", "Table", "TextContent", "Utterance", "Whitespace", "Word"}, accg |-> {"Inline", "Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"\n\n\n">>, spc |-> TRUE, sub |-> <<>>],
  DomainAnnotation |-> [tag |-> "domain", ann |-> "DOMAIN", g |-> {"Inline"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "Metric"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  EnddatetimeFeature |-> [tag |-> "enddatetime", ann |-> "", g |-> {"Feature"}, acce |-> {"Comment", "Description"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<"enddatetime">>],
  EntitiesLayer |-> [tag |-> "entities", ann |-> "ENTITY", g |-> {"Layer"}, acce |-> {"Comment", "Correction", "Description", "Entity", "ForeignData"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Entity |-> [tag |-> "entity", ann |-> "ENTITY", g |-> {"Span"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "WordReference"}, accg |-> {"Inline"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Entry |-> [tag |-> "entry", ann |-> "ENTRY", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Definition", "Description", "Example", "External", "Feature", "ForeignData", "Metric", "Part", "Relation", "String", "Term", "TextContent"}, accg |-> {"Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"\n\n">>, spc |-> TRUE, sub |-> <<>>],
  ErrorDetection |-> [tag |-> "errordetection", ann |-> "ERRORDETECTION", g |-> {"Inline"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "Metric"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Event |-> [tag |-> "event", ann |-> "EVENT", g |-> {"Structure"}, acce |-> {"ActorFeature", "Alternative", "AlternativeLayers", "BegindatetimeFeature", "Comment", "Correction", "Description", "Division", "EnddatetimeFeature", "Entry", "Event", "Example", "External", "Feature", "Figure", "ForeignData", "Gap", "Head", "Hiddenword", "Linebreak", "List", "Metric", "Note", "Paragraph", "Part", "PhonContent", "Quote", "Reference", "Relation", "Sentence", "String", "Table", "TextContent", "Utterance", "Whitespace", "Word"}, accg |-> {"Inline", "Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"\n\n">>, spc |-> TRUE, sub |-> <<>>],
  Example |-> [tag |-> "ex", ann |-> "EXAMPLE", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "Figure", "ForeignData", "Hiddenword", "Linebreak", "List", "Metric", "Paragraph", "Part", "PhonContent", "Reference", "Relation", "Sentence", "String", "Table", "TextContent", "Utterance", "Whitespace", "Word"}, accg |-> {"Inline", "Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"\n\n">>, spc |-> TRUE, sub |-> <<>>],
  External |-> [tag |-> "external", ann |-> "EXTERNAL", g |-> {"HigherOrder"}, acce |-> {}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Feature |-> [tag |-> "feat", ann |-> "", g |-> {"HigherOrder"}, acce |-> {"Comment", "Description"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Figure |-> [tag |-> "figure", ann |-> "FIGURE", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Caption", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Linebreak", "Metric", "Part", "Relation", "String", "TextContent"}, accg |-> {"Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"\n\n">>, spc |-> TRUE, sub |-> <<>>],
  FontFeature |-> [tag |-> "font", ann |-> "", g |-> {"Feature"}, acce |-> {"Comment", "Description"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<"font">>],
  ForeignData |-> [tag |-> "foreign-data", ann |-> "", g |-> {"HigherOrder"}, acce |-> {"Comment", "Description"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  FunctionFeature |-> [tag |-> "function", ann |-> "", g |-> {"Feature"}, acce |-> {"Comment", "Description"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<"function">>],
  Gap |-> [tag |-> "gap", ann |-> "GAP", g |-> {"HigherOrder"}, acce |-> {"Comment", "Content", "Description", "Feature", "ForeignData", "Metric", "Part"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Head |-> [tag |-> "head", ann |-> "HEAD", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Event", "External", "Feature", "ForeignData", "Gap", "Hiddenword", "Linebreak", "Metric", "Paragraph", "Part", "PhonContent", "Reference", "Relation", "Sentence", "String", "TextContent", "Whitespace", "Word"}, accg |-> {"Inline", "Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"\n\n">>, spc |-> TRUE, sub |-> <<>>],
  HeadFeature |-> [tag |-> "headfeature", ann |-> "", g |-> {"Feature"}, acce |-> {"Comment", "Description"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<"head">>],
  Headspan |-> [tag |-> "hd", ann |-> "", g |-> {"SpanRole"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "WordReference"}, accg |-> {"Inline"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Hiddenword |-> [tag |-> "hiddenw", ann |-> "HIDDENTOKEN", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Metric", "Part", "PhonContent", "Reference", "Relation", "String", "TextContent"}, accg |-> {"Inline", "Layer"}, wref |-> TRUE, hid |-> TRUE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<" ">>, spc |-> TRUE, sub |-> <<>>],
  Hyphbreak |-> [tag |-> "t-hbr", ann |-> "HYPHENATION", g |-> {"TextMarkup"}, acce |-> {"Comment", "Description", "Feature", "Linebreak"}, accg |-> {"TextMarkup"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> TRUE, pc |-> FALSE, delim |-> <<"">>, spc |-> FALSE, sub |-> <<>>],
  Label |-> [tag |-> "label", ann |-> "", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Hiddenword", "Linebreak", "Metric", "Part", "PhonContent", "Reference", "Relation", "String", "TextContent", "Whitespace", "Word"}, accg |-> {"Inline", "Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"\n\n">>, spc |-> TRUE, sub |-> <<>>],
  LangAnnotation |-> [tag |-> "lang", ann |-> "LANG", g |-> {"Inline"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "Metric"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  LemmaAnnotation |-> [tag |-> "lemma", ann |-> "LEMMA", g |-> {"Inline"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "Metric"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  LevelFeature |-> [tag |-> "level", ann |-> "", g |-> {"Feature"}, acce |-> {"Comment", "Description"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<"level">>],
  Linebreak |-> [tag |-> "br", ann |-> "LINEBREAK", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Metric", "Part", "Relation"}, accg |-> {"Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"">>, spc |-> TRUE, sub |-> <<>>],
  LinkReference |-> [tag |-> "xref", ann |-> "", g |-> {}, acce |-> {"Comment", "Description"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  List |-> [tag |-> "list", ann |-> "LIST", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Caption", "Comment", "Correction", "Description", "Event", "External", "Feature", "ForeignData", "Linebreak", "ListItem", "Metric", "Note", "Part", "PhonContent", "Reference", "Relation", "String", "TextContent"}, accg |-> {"Inline", "Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"\n\n">>, spc |-> TRUE, sub |-> <<>>],
  ListItem |-> [tag |-> "item", ann |-> "", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Event", "External", "Feature", "ForeignData", "Gap", "Hiddenword", "Label", "Linebreak", "List", "Metric", "Note", "Paragraph", "Part", "PhonContent", "Quote", "Reference", "Relation", "Sentence", "String", "TextContent", "Whitespace", "Word"}, accg |-> {"Inline", "Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"\n">>, spc |-> TRUE, sub |-> <<>>],
  Metric |-> [tag |-> "metric", ann |-> "METRIC", g |-> {"HigherOrder"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "ValueFeature"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  ModalitiesLayer |-> [tag |-> "modalities", ann |-> "MODALITY", g |-> {"Layer"}, acce |-> {"Comment", "Correction", "Description", "ForeignData", "Modality"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Modality |-> [tag |-> "modality", ann |-> "MODALITY", g |-> {"Span"}, acce |-> {"Comment", "Cue", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "PolarityFeature", "Relation", "Scope", "Source", "StrengthFeature", "Target"}, accg |-> {"Inline"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  ModalityFeature |-> [tag |-> "mod", ann |-> "", g |-> {"Feature"}, acce |-> {"Comment", "Description"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<"mod">>],
  Morpheme |-> [tag |-> "morpheme", ann |-> "MORPHOLOGICAL", g |-> {"Subtoken"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Feature", "ForeignData", "FunctionFeature", "Metric", "Morpheme", "Part", "PhonContent", "Relation", "String", "TextContent"}, accg |-> {"Inline", "Layer"}, wref |-> TRUE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"">>, spc |-> FALSE, sub |-> <<>>],
  MorphologyLayer |-> [tag |-> "morphology", ann |-> "MORPHOLOGICAL", g |-> {"Layer"}, acce |-> {"Comment", "Correction", "Description", "ForeignData", "Morpheme"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  New |-> [tag |-> "new", ann |-> "CORRECTION", g |-> {"CorrectionChild"}, acce |-> {"Comment", "Correction", "Description", "ForeignData", "Metric", "PhonContent", "String", "TextContent"}, accg |-> {"Inline", "Span", "Structure"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Note |-> [tag |-> "note", ann |-> "NOTE", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Example", "External", "Feature", "Figure", "ForeignData", "Head", "Hiddenword", "Linebreak", "List", "Metric", "Paragraph", "Part", "PhonContent", "Reference", "Relation", "Sentence", "String", "Table", "TextContent", "Utterance", "Whitespace", "Word"}, accg |-> {"Inline", "Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"\n\n">>, spc |-> TRUE, sub |-> <<>>],
  Observation |-> [tag |-> "observation", ann |-> "OBSERVATION", g |-> {"Span"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "WordReference"}, accg |-> {"Inline"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  ObservationLayer |-> [tag |-> "observations", ann |-> "OBSERVATION", g |-> {"Layer"}, acce |-> {"Comment", "Correction", "Description", "ForeignData", "Observation"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Original |-> [tag |-> "original", ann |-> "CORRECTION", g |-> {"CorrectionChild"}, acce |-> {"Comment", "Correction", "Description", "ForeignData", "Metric", "PhonContent", "String", "TextContent"}, accg |-> {"Inline", "Span", "Structure"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Paragraph |-> [tag |-> "p", ann |-> "PARAGRAPH", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Entry", "Event", "Example", "External", "Feature", "Figure", "ForeignData", "Gap", "Head", "Hiddenword", "Linebreak", "List", "Metric", "Note", "Part", "PhonContent", "Quote", "Reference", "Relation", "Sentence", "String", "TextContent", "Whitespace", "Word"}, accg |-> {"Inline", "Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"\n\n">>, spc |-> TRUE, sub |-> <<>>],
  Part |-> [tag |-> "part", ann |-> "PART", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Metric", "Part", "PhonContent", "Relation", "TextContent"}, accg |-> {"Inline", "Layer", "Structure"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<" ">>, spc |-> TRUE, sub |-> <<>>],
  PhonContent |-> [tag |-> "ph", ann |-> "PHON", g |-> {"Content"}, acce |-> {"Comment", "Description", "Feature"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> TRUE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Phoneme |-> [tag |-> "phoneme", ann |-> "PHONOLOGICAL", g |-> {"Subtoken"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Feature", "ForeignData", "FunctionFeature", "Metric", "Part", "PhonContent", "Phoneme", "Relation", "String", "TextContent"}, accg |-> {"Inline", "Layer"}, wref |-> TRUE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"">>, spc |-> FALSE, sub |-> <<>>],
  PhonologyLayer |-> [tag |-> "phonology", ann |-> "PHONOLOGICAL", g |-> {"Layer"}, acce |-> {"Comment", "Correction", "Description", "ForeignData", "Phoneme"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  PolarityFeature |-> [tag |-> "polarity", ann |-> "", g |-> {"Feature"}, acce |-> {"Comment", "Description"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<"polarity">>],
  PosAnnotation |-> [tag |-> "pos", ann |-> "POS", g |-> {"Inline"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "HeadFeature", "Metric"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Predicate |-> [tag |-> "predicate", ann |-> "PREDICATE", g |-> {"Span"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "SemanticRole", "WordReference"}, accg |-> {"Inline"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Quote |-> [tag |-> "quote", ann |-> "QUOTE", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Division", "External", "Feature", "ForeignData", "Gap", "Hiddenword", "Linebreak", "Metric", "Paragraph", "Part", "Quote", "Reference", "Relation", "Sentence", "String", "TextContent", "Utterance", "Whitespace", "Word"}, accg |-> {"Inline", "Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"\n\n">>, spc |-> TRUE, sub |-> <<>>],
  Reference |-> [tag |-> "ref", ann |-> "REFERENCE", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Hiddenword", "Linebreak", "Metric", "Paragraph", "Part", "PhonContent", "Quote", "Relation", "Sentence", "String", "TextContent", "Utterance", "Whitespace", "Word"}, accg |-> {"Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<" ">>, spc |-> TRUE, sub |-> <<>>],
  Relation |-> [tag |-> "relation", ann |-> "RELATION", g |-> {"HigherOrder"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Row |-> [tag |-> "row", ann |-> "", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Cell", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Metric", "Part", "Relation"}, accg |-> {"Inline", "Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"\n">>, spc |-> TRUE, sub |-> <<>>],
  Scope |-> [tag |-> "scope", ann |-> "", g |-> {"SpanRole"}, acce |-> {"Comment", "Cue", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "Source", "Target", "WordReference"}, accg |-> {"Inline"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  SemanticRole |-> [tag |-> "semrole", ann |-> "SEMROLE", g |-> {"Span"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "Headspan", "LinkReference", "Metric", "Relation", "WordReference"}, accg |-> {"Inline"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  SemanticRolesLayer |-> [tag |-> "semroles", ann |-> "SEMROLE", g |-> {"Layer"}, acce |-> {"Comment", "Correction", "Description", "ForeignData", "Predicate", "SemanticRole"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  SenseAnnotation |-> [tag |-> "sense", ann |-> "SENSE", g |-> {"Inline"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "Metric", "SynsetFeature"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Sentence |-> [tag |-> "s", ann |-> "SENTENCE", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Entry", "Event", "Example", "External", "Feature", "ForeignData", "Gap", "Hiddenword", "Linebreak", "Metric", "Note", "Part", "PhonContent", "Quote", "Reference", "Relation", "String", "TextContent", "Whitespace", "Word"}, accg |-> {"Inline", "Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<" ">>, spc |-> TRUE, sub |-> <<>>],
  Sentiment |-> [tag |-> "sentiment", ann |-> "SENTIMENT", g |-> {"Span"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "Headspan", "LinkReference", "Metric", "PolarityFeature", "Relation", "Source", "StrengthFeature", "Target", "WordReference"}, accg |-> {"Inline"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  SentimentLayer |-> [tag |-> "sentiments", ann |-> "SENTIMENT", g |-> {"Layer"}, acce |-> {"Comment", "Correction", "Description", "ForeignData", "Sentiment"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  SizeFeature |-> [tag |-> "size", ann |-> "", g |-> {"Feature"}, acce |-> {"Comment", "Description"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<"size">>],
  Source |-> [tag |-> "source", ann |-> "", g |-> {"SpanRole"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "WordReference"}, accg |-> {"Inline"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  SpanRelation |-> [tag |-> "spanrelation", ann |-> "SPANRELATION", g |-> {"HigherOrder"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "Metric", "Relation"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  SpanRelationLayer |-> [tag |-> "spanrelations", ann |-> "SPANRELATION", g |-> {"Layer"}, acce |-> {"Comment", "Correction", "Description", "ForeignData", "SpanRelation"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Speech |-> [tag |-> "speech", ann |-> "", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Division", "Entry", "Event", "Example", "External", "Feature", "ForeignData", "Gap", "Hiddenword", "List", "Metric", "Note", "Paragraph", "Part", "PhonContent", "Quote", "Reference", "Relation", "Sentence", "String", "TextContent", "Utterance", "Word"}, accg |-> {"Inline", "Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"\n\n\n">>, spc |-> TRUE, sub |-> <<>>],
  Statement |-> [tag |-> "statement", ann |-> "STATEMENT", g |-> {"Span"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "Headspan", "LinkReference", "Metric", "Relation", "Source", "StatementRelation", "WordReference"}, accg |-> {"Inline"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  StatementLayer |-> [tag |-> "statements", ann |-> "STATEMENT", g |-> {"Layer"}, acce |-> {"Comment", "Correction", "Description", "ForeignData", "Statement"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  StatementRelation |-> [tag |-> "rel", ann |-> "", g |-> {"SpanRole"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "WordReference"}, accg |-> {"Inline"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  StrengthFeature |-> [tag |-> "strength", ann |-> "", g |-> {"Feature"}, acce |-> {"Comment", "Description"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<"strength">>],
  String |-> [tag |-> "str", ann |-> "STRING", g |-> {"HigherOrder"}, acce |-> {"Comment", "Correction", "Description", "Feature", "ForeignData", "Metric", "PhonContent", "Relation", "TextContent"}, accg |-> {"Inline"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  StyleFeature |-> [tag |-> "style", ann |-> "", g |-> {"Feature"}, acce |-> {"Comment", "Description"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<"style">>],
  SubjectivityAnnotation |-> [tag |-> "subjectivity", ann |-> "SUBJECTIVITY", g |-> {"Inline"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "Metric"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Suggestion |-> [tag |-> "suggestion", ann |-> "CORRECTION", g |-> {"CorrectionChild"}, acce |-> {"Comment", "Correction", "Description", "ForeignData", "Metric", "PhonContent", "String", "TextContent"}, accg |-> {"Inline", "Span", "Structure"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  SynsetFeature |-> [tag |-> "synset", ann |-> "", g |-> {"Feature"}, acce |-> {"Comment", "Description"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<"synset">>],
  SyntacticUnit |-> [tag |-> "su", ann |-> "SYNTAX", g |-> {"Span"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "SyntacticUnit", "WordReference"}, accg |-> {"Inline"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  SyntaxLayer |-> [tag |-> "syntax", ann |-> "SYNTAX", g |-> {"Layer"}, acce |-> {"Comment", "Correction", "Description", "ForeignData", "SyntacticUnit"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Table |-> [tag |-> "table", ann |-> "TABLE", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Linebreak", "Metric", "Part", "Relation", "Row", "TableHead"}, accg |-> {"Inline", "Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"\n\n">>, spc |-> TRUE, sub |-> <<>>],
  TableHead |-> [tag |-> "tablehead", ann |-> "", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Metric", "Part", "Relation", "Row"}, accg |-> {"Inline", "Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"\n\n">>, spc |-> TRUE, sub |-> <<>>],
  Target |-> [tag |-> "target", ann |-> "", g |-> {"SpanRole"}, acce |-> {"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "WordReference"}, accg |-> {"Inline"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Term |-> [tag |-> "term", ann |-> "TERM", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Event", "External", "Feature", "Figure", "ForeignData", "Gap", "Hiddenword", "Linebreak", "List", "Metric", "Paragraph", "Part", "PhonContent", "Reference", "Relation", "Sentence", "String", "Table", "TextContent", "Utterance", "Whitespace", "Word"}, accg |-> {"Inline", "Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"\n\n">>, spc |-> TRUE, sub |-> <<>>],
  Text |-> [tag |-> "text", ann |-> "", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Division", "Entry", "Event", "Example", "External", "Feature", "Figure", "ForeignData", "Gap", "Hiddenword", "Linebreak", "List", "Metric", "Note", "Paragraph", "Part", "PhonContent", "Quote", "Reference", "Relation", "Sentence", "String", "Table", "TextContent", "Whitespace", "Word"}, accg |-> {"Inline", "Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"\n\n\n">>, spc |-> TRUE, sub |-> <<>>],
  TextContent |-> [tag |-> "t", ann |-> "TEXT", g |-> {"Content"}, acce |-> {"Comment", "Description", "Feature", "Linebreak"}, accg |-> {"TextMarkup"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> TRUE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  TextMarkupCorrection |-> [tag |-> "t-correction", ann |-> "CORRECTION", g |-> {"TextMarkup"}, acce |-> {"Comment", "Description", "Feature", "Linebreak"}, accg |-> {"TextMarkup"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> TRUE, pc |-> FALSE, delim |-> <<"">>, spc |-> FALSE, sub |-> <<>>],
  TextMarkupError |-> [tag |-> "t-error", ann |-> "ERRORDETECTION", g |-> {"TextMarkup"}, acce |-> {"Comment", "Description", "Feature", "Linebreak"}, accg |-> {"TextMarkup"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> TRUE, pc |-> FALSE, delim |-> <<"">>, spc |-> FALSE, sub |-> <<>>],
  TextMarkupGap |-> [tag |-> "t-gap", ann |-> "GAP", g |-> {"TextMarkup"}, acce |-> {"Comment", "Description", "Feature", "Linebreak"}, accg |-> {"TextMarkup"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> TRUE, pc |-> FALSE, delim |-> <<"">>, spc |-> FALSE, sub |-> <<>>],
  TextMarkupHSpace |-> [tag |-> "t-hspace", ann |-> "HSPACE", g |-> {"TextMarkup"}, acce |-> {"Comment", "Description", "Feature", "Linebreak"}, accg |-> {"TextMarkup"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> TRUE, pc |-> FALSE, delim |-> <<"">>, spc |-> FALSE, sub |-> <<>>],
  TextMarkupLanguage |-> [tag |-> "t-lang", ann |-> "LANG", g |-> {"TextMarkup"}, acce |-> {"Comment", "Description", "Feature", "Linebreak"}, accg |-> {"TextMarkup"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> TRUE, pc |-> FALSE, delim |-> <<"">>, spc |-> FALSE, sub |-> <<>>],
  TextMarkupReference |-> [tag |-> "t-ref", ann |-> "REFERENCE", g |-> {"TextMarkup"}, acce |-> {"Comment", "Description", "Feature", "Linebreak"}, accg |-> {"TextMarkup"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> TRUE, pc |-> FALSE, delim |-> <<"">>, spc |-> FALSE, sub |-> <<>>],
  TextMarkupString |-> [tag |-> "t-str", ann |-> "STRING", g |-> {"TextMarkup"}, acce |-> {"Comment", "Description", "Feature", "Linebreak"}, accg |-> {"TextMarkup"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> TRUE, pc |-> FALSE, delim |-> <<"">>, spc |-> FALSE, sub |-> <<>>],
  TextMarkupStyle |-> [tag |-> "t-style", ann |-> "STYLE", g |-> {"TextMarkup"}, acce |-> {"Comment", "Description", "Feature", "FontFeature", "Linebreak", "SizeFeature"}, accg |-> {"TextMarkup"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> TRUE, pc |-> FALSE, delim |-> <<"">>, spc |-> FALSE, sub |-> <<>>],
  TextMarkupWhitespace |-> [tag |-> "t-whitespace", ann |-> "WHITESPACE", g |-> {"TextMarkup"}, acce |-> {"Comment", "Description", "Feature", "Linebreak"}, accg |-> {"TextMarkup"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> TRUE, pc |-> FALSE, delim |-> <<"">>, spc |-> FALSE, sub |-> <<>>],
  TimeFeature |-> [tag |-> "time", ann |-> "", g |-> {"Feature"}, acce |-> {"Comment", "Description"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<"time">>],
  TimeSegment |-> [tag |-> "timesegment", ann |-> "TIMESEGMENT", g |-> {"Span"}, acce |-> {"ActorFeature", "BegindatetimeFeature", "Comment", "Description", "EnddatetimeFeature", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "WordReference"}, accg |-> {"Inline"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  TimingLayer |-> [tag |-> "timing", ann |-> "TIMESEGMENT", g |-> {"Layer"}, acce |-> {"Comment", "Correction", "Description", "ForeignData", "TimeSegment"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>],
  Utterance |-> [tag |-> "utt", ann |-> "UTTERANCE", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Gap", "Hiddenword", "Metric", "Note", "Part", "PhonContent", "Quote", "Reference", "Relation", "Sentence", "String", "TextContent", "Word"}, accg |-> {"Inline", "Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<" ">>, spc |-> TRUE, sub |-> <<>>],
  ValueFeature |-> [tag |-> "value", ann |-> "", g |-> {"Feature"}, acce |-> {"Comment", "Description"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<"value">>],
  Whitespace |-> [tag |-> "whitespace", ann |-> "WHITESPACE", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Metric", "Part", "Relation"}, accg |-> {"Layer"}, wref |-> FALSE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<"">>, spc |-> TRUE, sub |-> <<>>],
  Word |-> [tag |-> "w", ann |-> "TOKEN", g |-> {"Structure"}, acce |-> {"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Metric", "Part", "PhonContent", "Reference", "Relation", "String", "TextContent"}, accg |-> {"Inline", "Layer"}, wref |-> TRUE, hid |-> FALSE, pr |-> TRUE, tc |-> FALSE, pc |-> FALSE, delim |-> <<" ">>, spc |-> TRUE, sub |-> <<>>],
  WordReference |-> [tag |-> "wref", ann |-> "", g |-> {}, acce |-> {"Comment", "Description"}, accg |-> {}, wref |-> FALSE, hid |-> FALSE, pr |-> FALSE, tc |-> FALSE, pc |-> FALSE, delim |-> <<>>, spc |-> FALSE, sub |-> <<>>] ]

\* annotation types: name in declarations, and the type of layer span annotations of the type are put in
AnnotationList == <<
  [a |-> "TEXT", name |-> "text", el |-> "TextContent", layer |-> ""],
  [a |-> "TOKEN", name |-> "token", el |-> "Word", layer |-> ""],
  [a |-> "DIVISION", name |-> "division", el |-> "Division", layer |-> ""],
  [a |-> "PARAGRAPH", name |-> "paragraph", el |-> "Paragraph", layer |-> ""],
  [a |-> "HEAD", name |-> "head", el |-> "Head", layer |-> ""],
  [a |-> "LIST", name |-> "list", el |-> "List", layer |-> ""],
  [a |-> "FIGURE", name |-> "figure", el |-> "Figure", layer |-> ""],
  [a |-> "WHITESPACE", name |-> "whitespace", el |-> "Whitespace", layer |-> ""],
  [a |-> "LINEBREAK", name |-> "linebreak", el |-> "Linebreak", layer |-> ""],
  [a |-> "SENTENCE", name |-> "sentence", el |-> "Sentence", layer |-> ""],
  [a |-> "POS", name |-> "pos", el |-> "PosAnnotation", layer |-> ""],
  [a |-> "LEMMA", name |-> "lemma", el |-> "LemmaAnnotation", layer |-> ""],
  [a |-> "DOMAIN", name |-> "domain", el |-> "DomainAnnotation", layer |-> ""],
  [a |-> "SENSE", name |-> "sense", el |-> "SenseAnnotation", layer |-> ""],
  [a |-> "SYNTAX", name |-> "syntax", el |-> "SyntacticUnit", layer |-> "SyntaxLayer"],
  [a |-> "CHUNKING", name |-> "chunking", el |-> "Chunk", layer |-> "ChunkingLayer"],
  [a |-> "ENTITY", name |-> "entity", el |-> "Entity", layer |-> "EntitiesLayer"],
  [a |-> "CORRECTION", name |-> "correction", el |-> "Correction", layer |-> ""],
  [a |-> "ERRORDETECTION", name |-> "errordetection", el |-> "ErrorDetection", layer |-> ""],
  [a |-> "PHON", name |-> "phon", el |-> "PhonContent", layer |-> ""],
  [a |-> "SUBJECTIVITY", name |-> "subjectivity", el |-> "SubjectivityAnnotation", layer |-> ""],
  [a |-> "MORPHOLOGICAL", name |-> "morphological", el |-> "Morpheme", layer |-> "MorphologyLayer"],
  [a |-> "EVENT", name |-> "event", el |-> "Event", layer |-> ""],
  [a |-> "DEPENDENCY", name |-> "dependency", el |-> "Dependency", layer |-> "DependenciesLayer"],
  [a |-> "TIMESEGMENT", name |-> "timesegment", el |-> "TimeSegment", layer |-> "TimingLayer"],
  [a |-> "GAP", name |-> "gap", el |-> "Gap", layer |-> ""],
  [a |-> "QUOTE", name |-> "quote", el |-> "Quote", layer |-> ""],
  [a |-> "NOTE", name |-> "note", el |-> "Note", layer |-> ""],
  [a |-> "REFERENCE", name |-> "reference", el |-> "Reference", layer |-> ""],
  [a |-> "RELATION", name |-> "relation", el |-> "Relation", layer |-> ""],
  [a |-> "SPANRELATION", name |-> "spanrelation", el |-> "SpanRelation", layer |-> "SpanRelationLayer"],
  [a |-> "COREFERENCE", name |-> "coreference", el |-> "CoreferenceChain", layer |-> "CoreferenceLayer"],
  [a |-> "SEMROLE", name |-> "semrole", el |-> "SemanticRole", layer |-> "SemanticRolesLayer"],
  [a |-> "METRIC", name |-> "metric", el |-> "Metric", layer |-> ""],
  [a |-> "LANG", name |-> "lang", el |-> "LangAnnotation", layer |-> ""],
  [a |-> "STRING", name |-> "string", el |-> "String", layer |-> ""],
  [a |-> "TABLE", name |-> "table", el |-> "Table", layer |-> ""],
  [a |-> "STYLE", name |-> "style", el |-> "TextMarkupStyle", layer |-> ""],
  [a |-> "PART", name |-> "part", el |-> "Part", layer |-> ""],
  [a |-> "UTTERANCE", name |-> "utterance", el |-> "Utterance", layer |-> ""],
  [a |-> "ENTRY", name |-> "entry", el |-> "Entry", layer |-> ""],
  [a |-> "TERM", name |-> "term", el |-> "Term", layer |-> ""],
  [a |-> "DEFINITION", name |-> "definition", el |-> "Definition", layer |-> ""],
  [a |-> "EXAMPLE", name |-> "example", el |-> "Example", layer |-> ""],
  [a |-> "PHONOLOGICAL", name |-> "phonological", el |-> "Phoneme", layer |-> "PhonologyLayer"],
  [a |-> "PREDICATE", name |-> "predicate", el |-> "Predicate", layer |-> "SemanticRolesLayer"],
  [a |-> "OBSERVATION", name |-> "observation", el |-> "Observation", layer |-> "ObservationLayer"],
  [a |-> "SENTIMENT", name |-> "sentiment", el |-> "Sentiment", layer |-> "SentimentLayer"],
  [a |-> "STATEMENT", name |-> "statement", el |-> "Statement", layer |-> "StatementLayer"],
  [a |-> "ALTERNATIVE", name |-> "alternative", el |-> "Alternative", layer |-> ""],
  [a |-> "RAWCONTENT", name |-> "rawcontent", el |-> "Content", layer |-> ""],
  [a |-> "COMMENT", name |-> "comment", el |-> "Comment", layer |-> ""],
  [a |-> "DESCRIPTION", name |-> "description", el |-> "Description", layer |-> ""],
  [a |-> "HYPHENATION", name |-> "hyphenation", el |-> "Hyphbreak", layer |-> ""],
  [a |-> "HIDDENTOKEN", name |-> "hiddentoken", el |-> "Hiddenword", layer |-> ""],
  [a |-> "MODALITY", name |-> "modality", el |-> "Modality", layer |-> "ModalitiesLayer"],
  [a |-> "EXTERNAL", name |-> "external", el |-> "External", layer |-> ""],
  [a |-> "HSPACE", name |-> "hspace", el |-> "TextMarkupHSpace", layer |-> ""] >>

\* XML attribute name -> attribute
XATTR == {<<"xml:id", "ID">>, <<"set", "SET">>, <<"class", "CLASS">>, <<"annotator", "ANNOTATOR">>, <<"annotatortype", "ANNOTATORTYPE">>, <<"confidence", "CONFIDENCE">>, <<"n", "N">>, <<"datetime", "DATETIME">>, <<"begintime", "BEGINTIME">>, <<"endtime", "ENDTIME">>, <<"src", "SRC">>, <<"speaker", "SPEAKER">>, <<"textclass", "TEXTCLASS">>, <<"metadata", "METADATA">>, <<"id", "IDREF">>, <<"space", "SPACE">>, <<"processor", "PROCESSOR">>, <<"xlink:href", "HREF">>, <<"format", "FORMAT">>, <<"subset", "SUBSET">>, <<"t", "TEXT">>, <<"type", "TYPE">>, <<"auth", "AUTH">>, <<"offset", "OFFSET">>, <<"ref", "REF">>, <<"original", "ORIGINAL">>, <<"linenr", "LINENR">>, <<"pagenr", "PAGENR">>, <<"newpage", "NEWPAGE">>, <<"xlink:type", "XLINKTYPE">>, <<"tag", "TAG">>}

AT == [a \in {AnnotationList[i].a : i \in DOMAIN AnnotationList} |-> CHOOSE x \in {AnnotationList[i] : i \in DOMAIN AnnotationList} : x.a = a]

ElementTypes == DOMAIN ET
AnnotationTypes == DOMAIN AT
TextSet == "https://raw.githubusercontent.com/proycon/folia/master/setdefinitions/text.foliaset.ttl"
FoliaVersion == "2.1.0"
==================================================================================
