------------------------------- MODULE FoliaVocabRef -------------------------------
\* The complete vocabulary (all properties of all types), the reference for P21.
LOCAL INSTANCE Sequences

Ref_els == <<
  [acce |-> <<"Comment", "Description">>, accg |-> <<>>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"ActorFeature">>, delim |-> <<>>, disp |-> "actor", groups |-> <<"Feature">>, hidden |-> FALSE, ingroups |-> <<"Feature">>, into |-> "actor", label |-> "Feature", occ |-> 0, occs |-> 0, opta |-> <<>>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<"actor">>, t |-> "ActorFeature", tag |-> "actor", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> ""],
  [acce |-> <<"Comment", "Correction", "Description", "ForeignData", "MorphologyLayer", "PhonologyLayer">>, accg |-> <<"Inline">>, ann |-> <<"ALTERNATIVE">>, auth |-> FALSE, autoid |-> FALSE, back |-> <<"Alternative">>, delim |-> <<>>, disp |-> "alt", groups |-> <<"HigherOrder">>, hidden |-> FALSE, ingroups |-> <<"HigherOrder">>, into |-> "alt", label |-> "Alternative", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG">>, pann |-> <<"ALTERNATIVE">>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "Alternative", tag |-> "alt", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "alt"],
  [acce |-> <<"Comment", "Description", "ForeignData">>, accg |-> <<"Layer">>, ann |-> <<"ALTERNATIVE">>, auth |-> FALSE, autoid |-> FALSE, back |-> <<"AlternativeLayers">>, delim |-> <<>>, disp |-> "altlayers", groups |-> <<"HigherOrder">>, hidden |-> FALSE, ingroups |-> <<"HigherOrder">>, into |-> "altlayers", label |-> "Alternative Layers", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG">>, pann |-> <<"ALTERNATIVE">>, pc |-> FALSE, primary |-> FALSE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "AlternativeLayers", tag |-> "altlayers", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "altlayers"],
  [acce |-> <<"Comment", "Description">>, accg |-> <<>>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"BegindatetimeFeature">>, delim |-> <<>>, disp |-> "begindatetime", groups |-> <<"Feature">>, hidden |-> FALSE, ingroups |-> <<"Feature">>, into |-> "begindatetime", label |-> "Feature", occ |-> 0, occs |-> 0, opta |-> <<>>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<"begindatetime">>, t |-> "BegindatetimeFeature", tag |-> "begindatetime", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> ""],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Gap", "Linebreak", "Metric", "Paragraph", "Part", "PhonContent", "Quote", "Reference", "Relation", "Sentence", "String", "TextContent", "Whitespace">>, accg |-> <<"Layer", "Inline">>, ann |-> <<>>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Caption">>, delim |-> <<"\n\n">>, disp |-> "caption", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "caption", label |-> "Caption", occ |-> 1, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Caption", tag |-> "caption", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "caption"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Entry", "Event", "Example", "External", "Feature", "Figure", "ForeignData", "Gap", "Head", "Hiddenword", "Linebreak", "List", "Metric", "Note", "Paragraph", "Part", "Quote", "Reference", "Relation", "Sentence", "String", "TextContent", "Whitespace", "Word">>, accg |-> <<"Layer", "Inline">>, ann |-> <<>>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Cell">>, delim |-> <<" | ">>, disp |-> "cell", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "cell", label |-> "Cell", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Cell", tag |-> "cell", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "cell"],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "WordReference">>, accg |-> <<"Inline">>, ann |-> <<"CHUNKING">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"Chunk">>, delim |-> <<>>, disp |-> "chunk", groups |-> <<"Span">>, hidden |-> FALSE, ingroups |-> <<"Span">>, into |-> "chunk", label |-> "Chunk", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<"CHUNKING">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Chunk", tag |-> "chunk", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "chunk"],
  [acce |-> <<"Chunk", "Comment", "Correction", "Description", "ForeignData">>, accg |-> <<>>, ann |-> <<"CHUNKING">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"ChunkingLayer">>, delim |-> <<>>, disp |-> "chunking", groups |-> <<"Layer">>, hidden |-> FALSE, ingroups |-> <<"Layer">>, into |-> "chunking", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ID", "TAG">>, pann |-> <<"CHUNKING">>, pc |-> FALSE, primary |-> FALSE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> TRUE, speakable |-> FALSE, subset |-> <<>>, t |-> "ChunkingLayer", tag |-> "chunking", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "chunking"],
  [acce |-> <<"Comment", "Description">>, accg |-> <<>>, ann |-> <<"COMMENT">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"Comment">>, delim |-> <<>>, disp |-> "comment", groups |-> <<"HigherOrder">>, hidden |-> FALSE, ingroups |-> <<"HigherOrder">>, into |-> "comment", label |-> "Comment", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "CONFIDENCE", "DATETIME", "ID", "METADATA", "N", "TAG">>, pann |-> <<"COMMENT">>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "Comment", tag |-> "comment", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "comment"],
  [acce |-> <<"Comment", "Description">>, accg |-> <<>>, ann |-> <<"RAWCONTENT">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"Content">>, delim |-> <<>>, disp |-> "content", groups |-> <<"Content">>, hidden |-> FALSE, ingroups |-> <<"Content">>, into |-> "content", label |-> "Raw Content", occ |-> 1, occs |-> 0, opta |-> <<"ANNOTATOR", "CLASS", "CONFIDENCE", "DATETIME", "METADATA", "TAG">>, pann |-> <<"RAWCONTENT">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "Content", tag |-> "content", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "content"],
  [acce |-> <<"Comment", "CoreferenceLink", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation">>, accg |-> <<"Inline">>, ann |-> <<"COREFERENCE">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"CoreferenceChain">>, delim |-> <<>>, disp |-> "coreferencechain", groups |-> <<"Span">>, hidden |-> FALSE, ingroups |-> <<"Span">>, into |-> "coreferencechain", label |-> "Coreference Chain", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<"COREFERENCE">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<"CoreferenceLink">>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "CoreferenceChain", tag |-> "coreferencechain", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "coreferencechain"],
  [acce |-> <<"Comment", "CoreferenceChain", "Correction", "Description", "ForeignData">>, accg |-> <<>>, ann |-> <<"COREFERENCE">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"CoreferenceLayer">>, delim |-> <<>>, disp |-> "coreferences", groups |-> <<"Layer">>, hidden |-> FALSE, ingroups |-> <<"Layer">>, into |-> "coreferences", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ID", "TAG">>, pann |-> <<"COREFERENCE">>, pc |-> FALSE, primary |-> FALSE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> TRUE, speakable |-> FALSE, subset |-> <<>>, t |-> "CoreferenceLayer", tag |-> "coreferences", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "coreferences"],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "Headspan", "LevelFeature", "LinkReference", "Metric", "ModalityFeature", "Relation", "TimeFeature", "WordReference">>, accg |-> <<"Inline">>, ann |-> <<"COREFERENCE">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"CoreferenceLink">>, delim |-> <<>>, disp |-> "coreferencelink", groups |-> <<"SpanRole">>, hidden |-> FALSE, ingroups |-> <<"SpanRole">>, into |-> "coreferencelink", label |-> "Coreference Link", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<"COREFERENCE">>, pc |-> FALSE, primary |-> FALSE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "CoreferenceLink", tag |-> "coreferencelink", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "coreferencelink"],
  [acce |-> <<"Comment", "Current", "Description", "ErrorDetection", "Feature", "ForeignData", "Metric", "New", "Original", "Suggestion">>, accg |-> <<>>, ann |-> <<"CORRECTION">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"Correction">>, delim |-> <<>>, disp |-> "correction", groups |-> <<"HigherOrder">>, hidden |-> FALSE, ingroups |-> <<"HigherOrder">>, into |-> "correction", label |-> "Correction", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG">>, pann |-> <<"CORRECTION">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Correction", tag |-> "correction", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "correction"],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "WordReference">>, accg |-> <<"Inline">>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"Cue">>, delim |-> <<>>, disp |-> "cue", groups |-> <<"SpanRole">>, hidden |-> FALSE, ingroups |-> <<"SpanRole">>, into |-> "cue", label |-> "Cue", occ |-> 1, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<>>, pc |-> FALSE, primary |-> FALSE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Cue", tag |-> "cue", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "cue"],
  [acce |-> <<"Comment", "Correction", "Description", "ForeignData", "Metric", "PhonContent", "String", "TextContent">>, accg |-> <<"Inline", "Span", "Structure">>, ann |-> <<"CORRECTION">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"Current">>, delim |-> <<>>, disp |-> "current", groups |-> <<"CorrectionChild">>, hidden |-> FALSE, ingroups |-> <<"CorrectionChild">>, into |-> "current", label |-> "", occ |-> 1, occs |-> 0, opta |-> <<"ANNOTATOR", "CONFIDENCE", "DATETIME", "ID", "N", "TAG">>, pann |-> <<"CORRECTION">>, pc |-> FALSE, primary |-> FALSE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Current", tag |-> "current", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "current"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "Figure", "ForeignData", "Hiddenword", "Linebreak", "List", "Metric", "Paragraph", "Part", "PhonContent", "Reference", "Relation", "Sentence", "String", "Table", "TextContent", "Utterance", "Whitespace", "Word">>, accg |-> <<"Layer", "Inline">>, ann |-> <<"DEFINITION">>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Definition">>, delim |-> <<"\n\n">>, disp |-> "def", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "def", label |-> "Definition", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<"DEFINITION">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Definition", tag |-> "def", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "def"],
  [acce |-> <<"Comment", "Correction", "Dependency", "Description", "ForeignData">>, accg |-> <<>>, ann |-> <<"DEPENDENCY">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"DependenciesLayer">>, delim |-> <<>>, disp |-> "dependencies", groups |-> <<"Layer">>, hidden |-> FALSE, ingroups |-> <<"Layer">>, into |-> "dependencies", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ID", "TAG">>, pann |-> <<"DEPENDENCY">>, pc |-> FALSE, primary |-> FALSE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> TRUE, speakable |-> FALSE, subset |-> <<>>, t |-> "DependenciesLayer", tag |-> "dependencies", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "dependencies"],
  [acce |-> <<"Comment", "DependencyDependent", "Description", "Feature", "ForeignData", "Headspan", "LinkReference", "Metric", "Relation">>, accg |-> <<"Inline">>, ann |-> <<"DEPENDENCY">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"Dependency">>, delim |-> <<>>, disp |-> "dependency", groups |-> <<"Span">>, hidden |-> FALSE, ingroups |-> <<"Span">>, into |-> "dependency", label |-> "Dependency", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<"DEPENDENCY">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<"DependencyDependent", "Headspan">>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Dependency", tag |-> "dependency", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "dependency"],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "WordReference">>, accg |-> <<"Inline">>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"DependencyDependent">>, delim |-> <<>>, disp |-> "dep", groups |-> <<"SpanRole">>, hidden |-> FALSE, ingroups |-> <<"SpanRole">>, into |-> "dep", label |-> "Dependent", occ |-> 1, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<>>, pc |-> FALSE, primary |-> FALSE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "DependencyDependent", tag |-> "dep", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "dep"],
  [acce |-> <<"Comment", "Description">>, accg |-> <<>>, ann |-> <<"DESCRIPTION">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"Description">>, delim |-> <<>>, disp |-> "desc", groups |-> <<"HigherOrder">>, hidden |-> FALSE, ingroups |-> <<"HigherOrder">>, into |-> "desc", label |-> "Description", occ |-> 1, occs |-> 0, opta |-> <<"ANNOTATOR", "CONFIDENCE", "DATETIME", "ID", "METADATA", "N", "TAG">>, pann |-> <<"DESCRIPTION">>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "Description", tag |-> "desc", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "desc"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Division", "Entry", "Event", "Example", "External", "Feature", "Figure", "ForeignData", "Gap", "Head", "Linebreak", "List", "Metric", "Note", "Paragraph", "Part", "PhonContent", "Quote", "Reference", "Relation", "Sentence", "Table", "TextContent", "Utterance", "Whitespace", "Word">>, accg |-> <<"Layer", "Inline">>, ann |-> <<"DIVISION">>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Division">>, delim |-> <<"\n\n\n">>, disp |-> "div", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "div", label |-> "Division", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<"DIVISION">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Division", tag |-> "div", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "div"],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "Metric">>, accg |-> <<>>, ann |-> <<"DOMAIN">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"DomainAnnotation">>, delim |-> <<>>, disp |-> "domain", groups |-> <<"Inline">>, hidden |-> FALSE, ingroups |-> <<"Inline">>, into |-> "domain", label |-> "Domain", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<"DOMAIN">>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<"CLASS">>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "DomainAnnotation", tag |-> "domain", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "domain"],
  [acce |-> <<"Comment", "Description">>, accg |-> <<>>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"EnddatetimeFeature">>, delim |-> <<>>, disp |-> "enddatetime", groups |-> <<"Feature">>, hidden |-> FALSE, ingroups |-> <<"Feature">>, into |-> "enddatetime", label |-> "Feature", occ |-> 0, occs |-> 0, opta |-> <<>>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<"enddatetime">>, t |-> "EnddatetimeFeature", tag |-> "enddatetime", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> ""],
  [acce |-> <<"Comment", "Correction", "Description", "Entity", "ForeignData">>, accg |-> <<>>, ann |-> <<"ENTITY">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"EntitiesLayer">>, delim |-> <<>>, disp |-> "entities", groups |-> <<"Layer">>, hidden |-> FALSE, ingroups |-> <<"Layer">>, into |-> "entities", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ID", "TAG">>, pann |-> <<"ENTITY">>, pc |-> FALSE, primary |-> FALSE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> TRUE, speakable |-> FALSE, subset |-> <<>>, t |-> "EntitiesLayer", tag |-> "entities", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "entities"],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "WordReference">>, accg |-> <<"Inline">>, ann |-> <<"ENTITY">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"Entity">>, delim |-> <<>>, disp |-> "entity", groups |-> <<"Span">>, hidden |-> FALSE, ingroups |-> <<"Span">>, into |-> "entity", label |-> "Entity", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<"ENTITY">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Entity", tag |-> "entity", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "entity"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Definition", "Description", "Example", "External", "Feature", "ForeignData", "Metric", "Part", "Relation", "String", "Term", "TextContent">>, accg |-> <<"Layer">>, ann |-> <<"ENTRY">>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Entry">>, delim |-> <<"\n\n">>, disp |-> "entry", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "entry", label |-> "Entry", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<"ENTRY">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Entry", tag |-> "entry", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "entry"],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "Metric">>, accg |-> <<>>, ann |-> <<"ERRORDETECTION">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"ErrorDetection">>, delim |-> <<>>, disp |-> "errordetection", groups |-> <<"Inline">>, hidden |-> FALSE, ingroups |-> <<"Inline">>, into |-> "errordetection", label |-> "Error Detection", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<"ERRORDETECTION">>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<"CLASS">>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "ErrorDetection", tag |-> "errordetection", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "errordetection"],
  [acce |-> <<"ActorFeature", "Alternative", "AlternativeLayers", "BegindatetimeFeature", "Comment", "Correction", "Description", "Division", "EnddatetimeFeature", "Entry", "Event", "Example", "External", "Feature", "Figure", "ForeignData", "Gap", "Head", "Hiddenword", "Linebreak", "List", "Metric", "Note", "Paragraph", "Part", "PhonContent", "Quote", "Reference", "Relation", "Sentence", "String", "Table", "TextContent", "Utterance", "Whitespace", "Word">>, accg |-> <<"Layer", "Inline">>, ann |-> <<"EVENT">>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Event">>, delim |-> <<"\n\n">>, disp |-> "event", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "event", label |-> "Event", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<"EVENT">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Event", tag |-> "event", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "event"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "Figure", "ForeignData", "Hiddenword", "Linebreak", "List", "Metric", "Paragraph", "Part", "PhonContent", "Reference", "Relation", "Sentence", "String", "Table", "TextContent", "Utterance", "Whitespace", "Word">>, accg |-> <<"Layer", "Inline">>, ann |-> <<"EXAMPLE">>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Example">>, delim |-> <<"\n\n">>, disp |-> "ex", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "ex", label |-> "Example", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<"EXAMPLE">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Example", tag |-> "ex", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "ex"],
  [acce |-> <<>>, accg |-> <<>>, ann |-> <<"EXTERNAL">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"External">>, delim |-> <<>>, disp |-> "external", groups |-> <<"HigherOrder">>, hidden |-> FALSE, ingroups |-> <<"HigherOrder">>, into |-> "external", label |-> "External", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "TAG">>, pann |-> <<"EXTERNAL">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<"SRC">>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "External", tag |-> "external", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "external"],
  [acce |-> <<"Comment", "Description">>, accg |-> <<>>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"Feature">>, delim |-> <<>>, disp |-> "feat", groups |-> <<"HigherOrder">>, hidden |-> FALSE, ingroups |-> <<"HigherOrder">>, into |-> "feat", label |-> "Feature", occ |-> 0, occs |-> 0, opta |-> <<>>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "Feature", tag |-> "feat", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "feat"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Caption", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Linebreak", "Metric", "Part", "Relation", "String", "TextContent">>, accg |-> <<"Layer">>, ann |-> <<"FIGURE">>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Figure">>, delim |-> <<"\n\n">>, disp |-> "figure", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "figure", label |-> "Figure", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<"FIGURE">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "Figure", tag |-> "figure", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "figure"],
  [acce |-> <<"Comment", "Description">>, accg |-> <<>>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"FontFeature">>, delim |-> <<>>, disp |-> "font", groups |-> <<"Feature">>, hidden |-> FALSE, ingroups |-> <<"Feature">>, into |-> "font", label |-> "Feature", occ |-> 0, occs |-> 0, opta |-> <<>>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<"font">>, t |-> "FontFeature", tag |-> "font", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> ""],
  [acce |-> <<"Comment", "Description">>, accg |-> <<>>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"ForeignData">>, delim |-> <<>>, disp |-> "foreign-data", groups |-> <<"HigherOrder">>, hidden |-> FALSE, ingroups |-> <<"HigherOrder">>, into |-> "foreign-data", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<>>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "ForeignData", tag |-> "foreign-data", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "foreign-data"],
  [acce |-> <<"Comment", "Description">>, accg |-> <<>>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"FunctionFeature">>, delim |-> <<>>, disp |-> "function", groups |-> <<"Feature">>, hidden |-> FALSE, ingroups |-> <<"Feature">>, into |-> "function", label |-> "Feature", occ |-> 0, occs |-> 0, opta |-> <<>>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<"function">>, t |-> "FunctionFeature", tag |-> "function", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> ""],
  [acce |-> <<"Comment", "Content", "Description", "Feature", "ForeignData", "Metric", "Part">>, accg |-> <<>>, ann |-> <<"GAP">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"Gap">>, delim |-> <<>>, disp |-> "gap", groups |-> <<"HigherOrder">>, hidden |-> FALSE, ingroups |-> <<"HigherOrder">>, into |-> "gap", label |-> "Gap", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SRC", "TAG">>, pann |-> <<"GAP">>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "Gap", tag |-> "gap", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "gap"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Event", "External", "Feature", "ForeignData", "Gap", "Hiddenword", "Linebreak", "Metric", "Paragraph", "Part", "PhonContent", "Reference", "Relation", "Sentence", "String", "TextContent", "Whitespace", "Word">>, accg |-> <<"Layer", "Inline">>, ann |-> <<"HEAD">>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Head">>, delim |-> <<"\n\n">>, disp |-> "head", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "head", label |-> "Head", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<"HEAD">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Head", tag |-> "head", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "head"],
  [acce |-> <<"Comment", "Description">>, accg |-> <<>>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"HeadFeature">>, delim |-> <<>>, disp |-> "headfeature", groups |-> <<"Feature">>, hidden |-> FALSE, ingroups |-> <<"Feature">>, into |-> "headfeature", label |-> "Feature", occ |-> 0, occs |-> 0, opta |-> <<>>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<"head">>, t |-> "HeadFeature", tag |-> "headfeature", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> ""],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "WordReference">>, accg |-> <<"Inline">>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"Headspan">>, delim |-> <<>>, disp |-> "hd", groups |-> <<"SpanRole">>, hidden |-> FALSE, ingroups |-> <<"SpanRole">>, into |-> "hd", label |-> "Head", occ |-> 1, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<>>, pc |-> FALSE, primary |-> FALSE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Headspan", tag |-> "hd", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "hd"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Metric", "Part", "PhonContent", "Reference", "Relation", "String", "TextContent">>, accg |-> <<"Layer", "Inline">>, ann |-> <<"HIDDENTOKEN">>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Hiddenword">>, delim |-> <<" ">>, disp |-> "hiddenw", groups |-> <<"Structure">>, hidden |-> TRUE, ingroups |-> <<"Structure">>, into |-> "hiddenw", label |-> "Hidden Word/Token", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<"HIDDENTOKEN">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Hiddenword", tag |-> "hiddenw", tc |-> FALSE, wrefable |-> TRUE, xlink |-> FALSE, xmltag |-> "hiddenw"],
  [acce |-> <<"Comment", "Description", "Feature", "Linebreak">>, accg |-> <<"TextMarkup">>, ann |-> <<"HYPHENATION">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"Hyphbreak">>, delim |-> <<"">>, disp |-> "t-hbr", groups |-> <<"TextMarkup">>, hidden |-> FALSE, ingroups |-> <<"TextMarkup">>, into |-> "t-hbr", label |-> "Hyphbreak", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG">>, pann |-> <<"HYPHENATION">>, pc |-> FALSE, primary |-> FALSE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "Hyphbreak", tag |-> "t-hbr", tc |-> TRUE, wrefable |-> FALSE, xlink |-> TRUE, xmltag |-> "t-hbr"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Hiddenword", "Linebreak", "Metric", "Part", "PhonContent", "Reference", "Relation", "String", "TextContent", "Whitespace", "Word">>, accg |-> <<"Layer", "Inline">>, ann |-> <<>>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Label">>, delim |-> <<"\n\n">>, disp |-> "label", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "label", label |-> "Label", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Label", tag |-> "label", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "label"],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "Metric">>, accg |-> <<>>, ann |-> <<"LANG">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"LangAnnotation">>, delim |-> <<>>, disp |-> "lang", groups |-> <<"Inline">>, hidden |-> FALSE, ingroups |-> <<"Inline">>, into |-> "lang", label |-> "Language", occ |-> 0, occs |-> 1, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<"LANG">>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<"CLASS">>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "LangAnnotation", tag |-> "lang", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "lang"],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "Metric">>, accg |-> <<>>, ann |-> <<"LEMMA">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"LemmaAnnotation">>, delim |-> <<>>, disp |-> "lemma", groups |-> <<"Inline">>, hidden |-> FALSE, ingroups |-> <<"Inline">>, into |-> "lemma", label |-> "Lemma", occ |-> 0, occs |-> 1, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<"LEMMA">>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<"CLASS">>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "LemmaAnnotation", tag |-> "lemma", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "lemma"],
  [acce |-> <<"Comment", "Description">>, accg |-> <<>>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"LevelFeature">>, delim |-> <<>>, disp |-> "level", groups |-> <<"Feature">>, hidden |-> FALSE, ingroups |-> <<"Feature">>, into |-> "level", label |-> "Feature", occ |-> 0, occs |-> 0, opta |-> <<>>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<"level">>, t |-> "LevelFeature", tag |-> "level", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> ""],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Metric", "Part", "Relation">>, accg |-> <<"Layer">>, ann |-> <<"LINEBREAK">>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Linebreak">>, delim |-> <<"">>, disp |-> "br", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "br", label |-> "Linebreak", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<"LINEBREAK">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Linebreak", tag |-> "br", tc |-> FALSE, wrefable |-> FALSE, xlink |-> TRUE, xmltag |-> "br"],
  [acce |-> <<"Comment", "Description">>, accg |-> <<>>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"LinkReference">>, delim |-> <<>>, disp |-> "xref", groups |-> <<>>, hidden |-> FALSE, ingroups |-> <<>>, into |-> "xref", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"IDREF", "TAG">>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "LinkReference", tag |-> "xref", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "xref"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Caption", "Comment", "Correction", "Description", "Event", "External", "Feature", "ForeignData", "Linebreak", "ListItem", "Metric", "Note", "Part", "PhonContent", "Reference", "Relation", "String", "TextContent">>, accg |-> <<"Layer", "Inline">>, ann |-> <<"LIST">>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"List">>, delim |-> <<"\n\n">>, disp |-> "list", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "list", label |-> "List", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<"LIST">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "List", tag |-> "list", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "list"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Event", "External", "Feature", "ForeignData", "Gap", "Hiddenword", "Label", "Linebreak", "List", "Metric", "Note", "Paragraph", "Part", "PhonContent", "Quote", "Reference", "Relation", "Sentence", "String", "TextContent", "Whitespace", "Word">>, accg |-> <<"Layer", "Inline">>, ann |-> <<>>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"ListItem">>, delim |-> <<"\n">>, disp |-> "item", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "item", label |-> "List Item", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "ListItem", tag |-> "item", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "item"],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "ValueFeature">>, accg |-> <<>>, ann |-> <<"METRIC">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"Metric">>, delim |-> <<>>, disp |-> "metric", groups |-> <<"HigherOrder">>, hidden |-> FALSE, ingroups |-> <<"HigherOrder">>, into |-> "metric", label |-> "Metric", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG">>, pann |-> <<"METRIC">>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "Metric", tag |-> "metric", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "metric"],
  [acce |-> <<"Comment", "Correction", "Description", "ForeignData", "Modality">>, accg |-> <<>>, ann |-> <<"MODALITY">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"ModalitiesLayer">>, delim |-> <<>>, disp |-> "modalities", groups |-> <<"Layer">>, hidden |-> FALSE, ingroups |-> <<"Layer">>, into |-> "modalities", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ID", "TAG">>, pann |-> <<"MODALITY">>, pc |-> FALSE, primary |-> FALSE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> TRUE, speakable |-> FALSE, subset |-> <<>>, t |-> "ModalitiesLayer", tag |-> "modalities", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "modalities"],
  [acce |-> <<"Comment", "Cue", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "PolarityFeature", "Relation", "Scope", "Source", "StrengthFeature", "Target">>, accg |-> <<"Inline">>, ann |-> <<"MODALITY">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"Modality">>, delim |-> <<>>, disp |-> "modality", groups |-> <<"Span">>, hidden |-> FALSE, ingroups |-> <<"Span">>, into |-> "modality", label |-> "Modality", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<"MODALITY">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Modality", tag |-> "modality", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "modality"],
  [acce |-> <<"Comment", "Description">>, accg |-> <<>>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"ModalityFeature">>, delim |-> <<>>, disp |-> "mod", groups |-> <<"Feature">>, hidden |-> FALSE, ingroups |-> <<"Feature">>, into |-> "mod", label |-> "Feature", occ |-> 0, occs |-> 0, opta |-> <<>>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<"mod">>, t |-> "ModalityFeature", tag |-> "mod", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> ""],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Feature", "ForeignData", "FunctionFeature", "Metric", "Morpheme", "Part", "PhonContent", "Relation", "String", "TextContent">>, accg |-> <<"Layer", "Inline">>, ann |-> <<"MORPHOLOGICAL">>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Morpheme">>, delim |-> <<"">>, disp |-> "morpheme", groups |-> <<"Subtoken">>, hidden |-> FALSE, ingroups |-> <<"Subtoken">>, into |-> "morpheme", label |-> "Morpheme", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG">>, pann |-> <<"MORPHOLOGICAL">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Morpheme", tag |-> "morpheme", tc |-> FALSE, wrefable |-> TRUE, xlink |-> FALSE, xmltag |-> "morpheme"],
  [acce |-> <<"Comment", "Correction", "Description", "ForeignData", "Morpheme">>, accg |-> <<>>, ann |-> <<"MORPHOLOGICAL">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"MorphologyLayer">>, delim |-> <<>>, disp |-> "morphology", groups |-> <<"Layer">>, hidden |-> FALSE, ingroups |-> <<"Layer">>, into |-> "morphology", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ID", "TAG">>, pann |-> <<"MORPHOLOGICAL">>, pc |-> FALSE, primary |-> FALSE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> TRUE, speakable |-> FALSE, subset |-> <<>>, t |-> "MorphologyLayer", tag |-> "morphology", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "morphology"],
  [acce |-> <<"Comment", "Correction", "Description", "ForeignData", "Metric", "PhonContent", "String", "TextContent">>, accg |-> <<"Inline", "Span", "Structure">>, ann |-> <<"CORRECTION">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"New">>, delim |-> <<>>, disp |-> "new", groups |-> <<"CorrectionChild">>, hidden |-> FALSE, ingroups |-> <<"CorrectionChild">>, into |-> "new", label |-> "", occ |-> 1, occs |-> 0, opta |-> <<"ANNOTATOR", "CONFIDENCE", "DATETIME", "ID", "N", "TAG">>, pann |-> <<"CORRECTION">>, pc |-> FALSE, primary |-> FALSE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "New", tag |-> "new", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "new"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Example", "External", "Feature", "Figure", "ForeignData", "Head", "Hiddenword", "Linebreak", "List", "Metric", "Paragraph", "Part", "PhonContent", "Reference", "Relation", "Sentence", "String", "Table", "TextContent", "Utterance", "Whitespace", "Word">>, accg |-> <<"Layer", "Inline">>, ann |-> <<"NOTE">>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Note">>, delim |-> <<"\n\n">>, disp |-> "note", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "note", label |-> "Note", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<"NOTE">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Note", tag |-> "note", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "note"],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "WordReference">>, accg |-> <<"Inline">>, ann |-> <<"OBSERVATION">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"Observation">>, delim |-> <<>>, disp |-> "observation", groups |-> <<"Span">>, hidden |-> FALSE, ingroups |-> <<"Span">>, into |-> "observation", label |-> "Observation", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<"OBSERVATION">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Observation", tag |-> "observation", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "observation"],
  [acce |-> <<"Comment", "Correction", "Description", "ForeignData", "Observation">>, accg |-> <<>>, ann |-> <<"OBSERVATION">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"ObservationLayer">>, delim |-> <<>>, disp |-> "observations", groups |-> <<"Layer">>, hidden |-> FALSE, ingroups |-> <<"Layer">>, into |-> "observations", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ID", "TAG">>, pann |-> <<"OBSERVATION">>, pc |-> FALSE, primary |-> FALSE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> TRUE, speakable |-> FALSE, subset |-> <<>>, t |-> "ObservationLayer", tag |-> "observations", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "observations"],
  [acce |-> <<"Comment", "Correction", "Description", "ForeignData", "Metric", "PhonContent", "String", "TextContent">>, accg |-> <<"Inline", "Span", "Structure">>, ann |-> <<"CORRECTION">>, auth |-> FALSE, autoid |-> FALSE, back |-> <<"Original">>, delim |-> <<>>, disp |-> "original", groups |-> <<"CorrectionChild">>, hidden |-> FALSE, ingroups |-> <<"CorrectionChild">>, into |-> "original", label |-> "", occ |-> 1, occs |-> 0, opta |-> <<"ANNOTATOR", "CONFIDENCE", "DATETIME", "ID", "N", "TAG">>, pann |-> <<"CORRECTION">>, pc |-> FALSE, primary |-> FALSE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Original", tag |-> "original", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "original"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Entry", "Event", "Example", "External", "Feature", "Figure", "ForeignData", "Gap", "Head", "Hiddenword", "Linebreak", "List", "Metric", "Note", "Part", "PhonContent", "Quote", "Reference", "Relation", "Sentence", "String", "TextContent", "Whitespace", "Word">>, accg |-> <<"Layer", "Inline">>, ann |-> <<"PARAGRAPH">>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Paragraph">>, delim |-> <<"\n\n">>, disp |-> "p", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "p", label |-> "Paragraph", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<"PARAGRAPH">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Paragraph", tag |-> "p", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "p"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Metric", "Part", "PhonContent", "Relation", "TextContent">>, accg |-> <<"Layer", "Inline", "Structure">>, ann |-> <<"PART">>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Part">>, delim |-> <<" ">>, disp |-> "part", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "part", label |-> "Part", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<"PART">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Part", tag |-> "part", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "part"],
  [acce |-> <<"Comment", "Description", "Feature">>, accg |-> <<>>, ann |-> <<"PHON">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"PhonContent">>, delim |-> <<>>, disp |-> "ph", groups |-> <<"Content">>, hidden |-> FALSE, ingroups |-> <<"Content">>, into |-> "ph", label |-> "Phonetic Content", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "CLASS", "CONFIDENCE", "DATETIME", "METADATA", "TAG">>, pann |-> <<"PHON">>, pc |-> TRUE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "PhonContent", tag |-> "ph", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "ph"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Feature", "ForeignData", "FunctionFeature", "Metric", "Part", "PhonContent", "Phoneme", "Relation", "String", "TextContent">>, accg |-> <<"Layer", "Inline">>, ann |-> <<"PHONOLOGICAL">>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Phoneme">>, delim |-> <<"">>, disp |-> "phoneme", groups |-> <<"Subtoken">>, hidden |-> FALSE, ingroups |-> <<"Subtoken">>, into |-> "phoneme", label |-> "Phoneme", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG">>, pann |-> <<"PHONOLOGICAL">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Phoneme", tag |-> "phoneme", tc |-> FALSE, wrefable |-> TRUE, xlink |-> FALSE, xmltag |-> "phoneme"],
  [acce |-> <<"Comment", "Correction", "Description", "ForeignData", "Phoneme">>, accg |-> <<>>, ann |-> <<"PHONOLOGICAL">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"PhonologyLayer">>, delim |-> <<>>, disp |-> "phonology", groups |-> <<"Layer">>, hidden |-> FALSE, ingroups |-> <<"Layer">>, into |-> "phonology", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ID", "TAG">>, pann |-> <<"PHONOLOGICAL">>, pc |-> FALSE, primary |-> FALSE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> TRUE, speakable |-> FALSE, subset |-> <<>>, t |-> "PhonologyLayer", tag |-> "phonology", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "phonology"],
  [acce |-> <<"Comment", "Description">>, accg |-> <<>>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"PolarityFeature">>, delim |-> <<>>, disp |-> "polarity", groups |-> <<"Feature">>, hidden |-> FALSE, ingroups |-> <<"Feature">>, into |-> "polarity", label |-> "Feature", occ |-> 0, occs |-> 0, opta |-> <<>>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<"polarity">>, t |-> "PolarityFeature", tag |-> "polarity", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> ""],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "HeadFeature", "Metric">>, accg |-> <<>>, ann |-> <<"POS">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"PosAnnotation">>, delim |-> <<>>, disp |-> "pos", groups |-> <<"Inline">>, hidden |-> FALSE, ingroups |-> <<"Inline">>, into |-> "pos", label |-> "Part-of-Speech", occ |-> 0, occs |-> 1, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<"POS">>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<"CLASS">>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "PosAnnotation", tag |-> "pos", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "pos"],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "SemanticRole", "WordReference">>, accg |-> <<"Inline">>, ann |-> <<"PREDICATE">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"Predicate">>, delim |-> <<>>, disp |-> "predicate", groups |-> <<"Span">>, hidden |-> FALSE, ingroups |-> <<"Span">>, into |-> "predicate", label |-> "Predicate", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<"PREDICATE">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Predicate", tag |-> "predicate", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "predicate"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Division", "External", "Feature", "ForeignData", "Gap", "Hiddenword", "Linebreak", "Metric", "Paragraph", "Part", "Quote", "Reference", "Relation", "Sentence", "String", "TextContent", "Utterance", "Whitespace", "Word">>, accg |-> <<"Layer", "Inline">>, ann |-> <<"QUOTE">>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Quote">>, delim |-> <<"\n\n">>, disp |-> "quote", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "quote", label |-> "Quote", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<"QUOTE">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Quote", tag |-> "quote", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "quote"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Hiddenword", "Linebreak", "Metric", "Paragraph", "Part", "PhonContent", "Quote", "Relation", "Sentence", "String", "TextContent", "Utterance", "Whitespace", "Word">>, accg |-> <<"Layer">>, ann |-> <<"REFERENCE">>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Reference">>, delim |-> <<" ">>, disp |-> "ref", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "ref", label |-> "Reference", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<"REFERENCE">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Reference", tag |-> "ref", tc |-> FALSE, wrefable |-> FALSE, xlink |-> TRUE, xmltag |-> "ref"],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric">>, accg |-> <<>>, ann |-> <<"RELATION">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"Relation">>, delim |-> <<>>, disp |-> "relation", groups |-> <<"HigherOrder">>, hidden |-> FALSE, ingroups |-> <<"HigherOrder">>, into |-> "relation", label |-> "Relation", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG">>, pann |-> <<"RELATION">>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "Relation", tag |-> "relation", tc |-> FALSE, wrefable |-> FALSE, xlink |-> TRUE, xmltag |-> "relation"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Cell", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Metric", "Part", "Relation">>, accg |-> <<"Layer", "Inline">>, ann |-> <<>>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Row">>, delim |-> <<"\n">>, disp |-> "row", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "row", label |-> "Table Row", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Row", tag |-> "row", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "row"],
  [acce |-> <<"Comment", "Cue", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "Source", "Target", "WordReference">>, accg |-> <<"Inline">>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"Scope">>, delim |-> <<>>, disp |-> "scope", groups |-> <<"SpanRole">>, hidden |-> FALSE, ingroups |-> <<"SpanRole">>, into |-> "scope", label |-> "Scope", occ |-> 1, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<>>, pc |-> FALSE, primary |-> FALSE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Scope", tag |-> "scope", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "scope"],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "Headspan", "LinkReference", "Metric", "Relation", "WordReference">>, accg |-> <<"Inline">>, ann |-> <<"SEMROLE">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"SemanticRole">>, delim |-> <<>>, disp |-> "semrole", groups |-> <<"Span">>, hidden |-> FALSE, ingroups |-> <<"Span">>, into |-> "semrole", label |-> "Semantic Role", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<"SEMROLE">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<"CLASS">>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "SemanticRole", tag |-> "semrole", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "semrole"],
  [acce |-> <<"Comment", "Correction", "Description", "ForeignData", "Predicate", "SemanticRole">>, accg |-> <<>>, ann |-> <<"SEMROLE">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"SemanticRolesLayer">>, delim |-> <<>>, disp |-> "semroles", groups |-> <<"Layer">>, hidden |-> FALSE, ingroups |-> <<"Layer">>, into |-> "semroles", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ID", "TAG">>, pann |-> <<"SEMROLE">>, pc |-> FALSE, primary |-> FALSE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> TRUE, speakable |-> FALSE, subset |-> <<>>, t |-> "SemanticRolesLayer", tag |-> "semroles", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "semroles"],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "Metric", "SynsetFeature">>, accg |-> <<>>, ann |-> <<"SENSE">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"SenseAnnotation">>, delim |-> <<>>, disp |-> "sense", groups |-> <<"Inline">>, hidden |-> FALSE, ingroups |-> <<"Inline">>, into |-> "sense", label |-> "Semantic Sense", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<"SENSE">>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<"CLASS">>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "SenseAnnotation", tag |-> "sense", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "sense"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Entry", "Event", "Example", "External", "Feature", "ForeignData", "Gap", "Hiddenword", "Linebreak", "Metric", "Note", "Part", "PhonContent", "Quote", "Reference", "Relation", "String", "TextContent", "Whitespace", "Word">>, accg |-> <<"Layer", "Inline">>, ann |-> <<"SENTENCE">>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Sentence">>, delim |-> <<" ">>, disp |-> "s", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "s", label |-> "Sentence", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<"SENTENCE">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Sentence", tag |-> "s", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "s"],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "Headspan", "LinkReference", "Metric", "PolarityFeature", "Relation", "Source", "StrengthFeature", "Target", "WordReference">>, accg |-> <<"Inline">>, ann |-> <<"SENTIMENT">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"Sentiment">>, delim |-> <<>>, disp |-> "sentiment", groups |-> <<"Span">>, hidden |-> FALSE, ingroups |-> <<"Span">>, into |-> "sentiment", label |-> "Sentiment", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<"SENTIMENT">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Sentiment", tag |-> "sentiment", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "sentiment"],
  [acce |-> <<"Comment", "Correction", "Description", "ForeignData", "Sentiment">>, accg |-> <<>>, ann |-> <<"SENTIMENT">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"SentimentLayer">>, delim |-> <<>>, disp |-> "sentiments", groups |-> <<"Layer">>, hidden |-> FALSE, ingroups |-> <<"Layer">>, into |-> "sentiments", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ID", "TAG">>, pann |-> <<"SENTIMENT">>, pc |-> FALSE, primary |-> FALSE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> TRUE, speakable |-> FALSE, subset |-> <<>>, t |-> "SentimentLayer", tag |-> "sentiments", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "sentiments"],
  [acce |-> <<"Comment", "Description">>, accg |-> <<>>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"SizeFeature">>, delim |-> <<>>, disp |-> "size", groups |-> <<"Feature">>, hidden |-> FALSE, ingroups |-> <<"Feature">>, into |-> "size", label |-> "Feature", occ |-> 0, occs |-> 0, opta |-> <<>>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<"size">>, t |-> "SizeFeature", tag |-> "size", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> ""],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "WordReference">>, accg |-> <<"Inline">>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"Source">>, delim |-> <<>>, disp |-> "source", groups |-> <<"SpanRole">>, hidden |-> FALSE, ingroups |-> <<"SpanRole">>, into |-> "source", label |-> "Source", occ |-> 1, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<>>, pc |-> FALSE, primary |-> FALSE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Source", tag |-> "source", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "source"],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "Metric", "Relation">>, accg |-> <<>>, ann |-> <<"SPANRELATION">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"SpanRelation">>, delim |-> <<>>, disp |-> "spanrelation", groups |-> <<"HigherOrder">>, hidden |-> FALSE, ingroups |-> <<"HigherOrder">>, into |-> "spanrelation", label |-> "Span Relation", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG">>, pann |-> <<"SPANRELATION">>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "SpanRelation", tag |-> "spanrelation", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "spanrelation"],
  [acce |-> <<"Comment", "Correction", "Description", "ForeignData", "SpanRelation">>, accg |-> <<>>, ann |-> <<"SPANRELATION">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"SpanRelationLayer">>, delim |-> <<>>, disp |-> "spanrelations", groups |-> <<"Layer">>, hidden |-> FALSE, ingroups |-> <<"Layer">>, into |-> "spanrelations", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ID", "TAG">>, pann |-> <<"SPANRELATION">>, pc |-> FALSE, primary |-> FALSE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> TRUE, speakable |-> FALSE, subset |-> <<>>, t |-> "SpanRelationLayer", tag |-> "spanrelations", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "spanrelations"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Division", "Entry", "Event", "Example", "External", "Feature", "ForeignData", "Gap", "Hiddenword", "List", "Metric", "Note", "Paragraph", "Part", "PhonContent", "Quote", "Reference", "Relation", "Sentence", "String", "TextContent", "Utterance", "Word">>, accg |-> <<"Layer", "Inline">>, ann |-> <<>>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Speech">>, delim |-> <<"\n\n\n">>, disp |-> "speech", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "speech", label |-> "Speech Body", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Speech", tag |-> "speech", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "speech"],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "Headspan", "LinkReference", "Metric", "Relation", "Source", "StatementRelation", "WordReference">>, accg |-> <<"Inline">>, ann |-> <<"STATEMENT">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"Statement">>, delim |-> <<>>, disp |-> "statement", groups |-> <<"Span">>, hidden |-> FALSE, ingroups |-> <<"Span">>, into |-> "statement", label |-> "Statement", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<"STATEMENT">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Statement", tag |-> "statement", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "statement"],
  [acce |-> <<"Comment", "Correction", "Description", "ForeignData", "Statement">>, accg |-> <<>>, ann |-> <<"STATEMENT">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"StatementLayer">>, delim |-> <<>>, disp |-> "statements", groups |-> <<"Layer">>, hidden |-> FALSE, ingroups |-> <<"Layer">>, into |-> "statements", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ID", "TAG">>, pann |-> <<"STATEMENT">>, pc |-> FALSE, primary |-> FALSE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> TRUE, speakable |-> FALSE, subset |-> <<>>, t |-> "StatementLayer", tag |-> "statements", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "statements"],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "WordReference">>, accg |-> <<"Inline">>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"StatementRelation">>, delim |-> <<>>, disp |-> "rel", groups |-> <<"SpanRole">>, hidden |-> FALSE, ingroups |-> <<"SpanRole">>, into |-> "rel", label |-> "Relation", occ |-> 1, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<>>, pc |-> FALSE, primary |-> FALSE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "StatementRelation", tag |-> "rel", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "rel"],
  [acce |-> <<"Comment", "Description">>, accg |-> <<>>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"StrengthFeature">>, delim |-> <<>>, disp |-> "strength", groups |-> <<"Feature">>, hidden |-> FALSE, ingroups |-> <<"Feature">>, into |-> "strength", label |-> "Feature", occ |-> 0, occs |-> 0, opta |-> <<>>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<"strength">>, t |-> "StrengthFeature", tag |-> "strength", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> ""],
  [acce |-> <<"Comment", "Correction", "Description", "Feature", "ForeignData", "Metric", "PhonContent", "Relation", "TextContent">>, accg |-> <<"Inline">>, ann |-> <<"STRING">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"String">>, delim |-> <<>>, disp |-> "str", groups |-> <<"HigherOrder">>, hidden |-> FALSE, ingroups |-> <<"HigherOrder">>, into |-> "str", label |-> "String", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SRC", "TAG">>, pann |-> <<"STRING">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "String", tag |-> "str", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "str"],
  [acce |-> <<"Comment", "Description">>, accg |-> <<>>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"StyleFeature">>, delim |-> <<>>, disp |-> "style", groups |-> <<"Feature">>, hidden |-> FALSE, ingroups |-> <<"Feature">>, into |-> "style", label |-> "Feature", occ |-> 0, occs |-> 0, opta |-> <<>>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<"style">>, t |-> "StyleFeature", tag |-> "style", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> ""],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "Metric">>, accg |-> <<>>, ann |-> <<"SUBJECTIVITY">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"SubjectivityAnnotation">>, delim |-> <<>>, disp |-> "subjectivity", groups |-> <<"Inline">>, hidden |-> FALSE, ingroups |-> <<"Inline">>, into |-> "subjectivity", label |-> "Subjectivity/Sentiment", occ |-> 0, occs |-> 1, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<"SUBJECTIVITY">>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<"CLASS">>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "SubjectivityAnnotation", tag |-> "subjectivity", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "subjectivity"],
  [acce |-> <<"Comment", "Correction", "Description", "ForeignData", "Metric", "PhonContent", "String", "TextContent">>, accg |-> <<"Inline", "Span", "Structure">>, ann |-> <<"CORRECTION">>, auth |-> FALSE, autoid |-> FALSE, back |-> <<"Suggestion">>, delim |-> <<>>, disp |-> "suggestion", groups |-> <<"CorrectionChild">>, hidden |-> FALSE, ingroups |-> <<"CorrectionChild">>, into |-> "suggestion", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "CONFIDENCE", "DATETIME", "ID", "N", "TAG">>, pann |-> <<"CORRECTION">>, pc |-> FALSE, primary |-> FALSE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Suggestion", tag |-> "suggestion", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "suggestion"],
  [acce |-> <<"Comment", "Description">>, accg |-> <<>>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"SynsetFeature">>, delim |-> <<>>, disp |-> "synset", groups |-> <<"Feature">>, hidden |-> FALSE, ingroups |-> <<"Feature">>, into |-> "synset", label |-> "Feature", occ |-> 0, occs |-> 0, opta |-> <<>>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<"synset">>, t |-> "SynsetFeature", tag |-> "synset", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> ""],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "SyntacticUnit", "WordReference">>, accg |-> <<"Inline">>, ann |-> <<"SYNTAX">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"SyntacticUnit">>, delim |-> <<>>, disp |-> "su", groups |-> <<"Span">>, hidden |-> FALSE, ingroups |-> <<"Span">>, into |-> "su", label |-> "Syntactic Unit", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<"SYNTAX">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "SyntacticUnit", tag |-> "su", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "su"],
  [acce |-> <<"Comment", "Correction", "Description", "ForeignData", "SyntacticUnit">>, accg |-> <<>>, ann |-> <<"SYNTAX">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"SyntaxLayer">>, delim |-> <<>>, disp |-> "syntax", groups |-> <<"Layer">>, hidden |-> FALSE, ingroups |-> <<"Layer">>, into |-> "syntax", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ID", "TAG">>, pann |-> <<"SYNTAX">>, pc |-> FALSE, primary |-> FALSE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> TRUE, speakable |-> FALSE, subset |-> <<>>, t |-> "SyntaxLayer", tag |-> "syntax", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "syntax"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Linebreak", "Metric", "Part", "Relation", "Row", "TableHead">>, accg |-> <<"Layer", "Inline">>, ann |-> <<"TABLE">>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Table">>, delim |-> <<"\n\n">>, disp |-> "table", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "table", label |-> "Table", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<"TABLE">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Table", tag |-> "table", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "table"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Metric", "Part", "Relation", "Row">>, accg |-> <<"Layer", "Inline">>, ann |-> <<>>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"TableHead">>, delim |-> <<"\n\n">>, disp |-> "tablehead", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "tablehead", label |-> "Table Header", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "TableHead", tag |-> "tablehead", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "tablehead"],
  [acce |-> <<"Comment", "Description", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "WordReference">>, accg |-> <<"Inline">>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"Target">>, delim |-> <<>>, disp |-> "target", groups |-> <<"SpanRole">>, hidden |-> FALSE, ingroups |-> <<"SpanRole">>, into |-> "target", label |-> "Target", occ |-> 1, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<>>, pc |-> FALSE, primary |-> FALSE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Target", tag |-> "target", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "target"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Event", "External", "Feature", "Figure", "ForeignData", "Gap", "Hiddenword", "Linebreak", "List", "Metric", "Paragraph", "Part", "PhonContent", "Reference", "Relation", "Sentence", "String", "Table", "TextContent", "Utterance", "Whitespace", "Word">>, accg |-> <<"Layer", "Inline">>, ann |-> <<"TERM">>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Term">>, delim |-> <<"\n\n">>, disp |-> "term", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "term", label |-> "Term", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<"TERM">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Term", tag |-> "term", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "term"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "Division", "Entry", "Event", "Example", "External", "Feature", "Figure", "ForeignData", "Gap", "Hiddenword", "Linebreak", "List", "Metric", "Note", "Paragraph", "Part", "PhonContent", "Quote", "Reference", "Relation", "Sentence", "String", "Table", "TextContent", "Whitespace", "Word">>, accg |-> <<"Layer", "Inline">>, ann |-> <<>>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Text">>, delim |-> <<"\n\n\n">>, disp |-> "text", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "text", label |-> "Text Body", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Text", tag |-> "text", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "text"],
  [acce |-> <<"Comment", "Description", "Feature", "Linebreak">>, accg |-> <<"TextMarkup">>, ann |-> <<"TEXT">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"TextContent">>, delim |-> <<>>, disp |-> "t", groups |-> <<"Content">>, hidden |-> FALSE, ingroups |-> <<"Content">>, into |-> "t", label |-> "Text", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "CLASS", "CONFIDENCE", "DATETIME", "METADATA", "TAG">>, pann |-> <<"TEXT">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "TextContent", tag |-> "t", tc |-> TRUE, wrefable |-> FALSE, xlink |-> TRUE, xmltag |-> "t"],
  [acce |-> <<"Comment", "Description", "Feature", "Linebreak">>, accg |-> <<"TextMarkup">>, ann |-> <<"CORRECTION">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"TextMarkupCorrection">>, delim |-> <<"">>, disp |-> "t-correction", groups |-> <<"TextMarkup">>, hidden |-> FALSE, ingroups |-> <<"TextMarkup">>, into |-> "t-correction", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG">>, pann |-> <<"CORRECTION">>, pc |-> FALSE, primary |-> FALSE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "TextMarkupCorrection", tag |-> "t-correction", tc |-> TRUE, wrefable |-> FALSE, xlink |-> TRUE, xmltag |-> "t-correction"],
  [acce |-> <<"Comment", "Description", "Feature", "Linebreak">>, accg |-> <<"TextMarkup">>, ann |-> <<"ERRORDETECTION">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"TextMarkupError">>, delim |-> <<"">>, disp |-> "t-error", groups |-> <<"TextMarkup">>, hidden |-> FALSE, ingroups |-> <<"TextMarkup">>, into |-> "t-error", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG">>, pann |-> <<"ERRORDETECTION">>, pc |-> FALSE, primary |-> FALSE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "TextMarkupError", tag |-> "t-error", tc |-> TRUE, wrefable |-> FALSE, xlink |-> TRUE, xmltag |-> "t-error"],
  [acce |-> <<"Comment", "Description", "Feature", "Linebreak">>, accg |-> <<"TextMarkup">>, ann |-> <<"GAP">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"TextMarkupGap">>, delim |-> <<"">>, disp |-> "t-gap", groups |-> <<"TextMarkup">>, hidden |-> FALSE, ingroups |-> <<"TextMarkup">>, into |-> "t-gap", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG">>, pann |-> <<"GAP">>, pc |-> FALSE, primary |-> FALSE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "TextMarkupGap", tag |-> "t-gap", tc |-> TRUE, wrefable |-> FALSE, xlink |-> TRUE, xmltag |-> "t-gap"],
  [acce |-> <<"Comment", "Description", "Feature", "Linebreak">>, accg |-> <<"TextMarkup">>, ann |-> <<"HSPACE">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"TextMarkupHSpace">>, delim |-> <<"">>, disp |-> "t-hspace", groups |-> <<"TextMarkup">>, hidden |-> FALSE, ingroups |-> <<"TextMarkup">>, into |-> "t-hspace", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG">>, pann |-> <<"HSPACE">>, pc |-> FALSE, primary |-> FALSE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "TextMarkupHSpace", tag |-> "t-hspace", tc |-> TRUE, wrefable |-> FALSE, xlink |-> TRUE, xmltag |-> "t-hspace"],
  [acce |-> <<"Comment", "Description", "Feature", "Linebreak">>, accg |-> <<"TextMarkup">>, ann |-> <<"LANG">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"TextMarkupLanguage">>, delim |-> <<"">>, disp |-> "t-lang", groups |-> <<"TextMarkup">>, hidden |-> FALSE, ingroups |-> <<"TextMarkup">>, into |-> "t-lang", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG">>, pann |-> <<"LANG">>, pc |-> FALSE, primary |-> FALSE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "TextMarkupLanguage", tag |-> "t-lang", tc |-> TRUE, wrefable |-> FALSE, xlink |-> TRUE, xmltag |-> "t-lang"],
  [acce |-> <<"Comment", "Description", "Feature", "Linebreak">>, accg |-> <<"TextMarkup">>, ann |-> <<"REFERENCE">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"TextMarkupReference">>, delim |-> <<"">>, disp |-> "t-ref", groups |-> <<"TextMarkup">>, hidden |-> FALSE, ingroups |-> <<"TextMarkup">>, into |-> "t-ref", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG">>, pann |-> <<"REFERENCE">>, pc |-> FALSE, primary |-> FALSE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "TextMarkupReference", tag |-> "t-ref", tc |-> TRUE, wrefable |-> FALSE, xlink |-> TRUE, xmltag |-> "t-ref"],
  [acce |-> <<"Comment", "Description", "Feature", "Linebreak">>, accg |-> <<"TextMarkup">>, ann |-> <<"STRING">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"TextMarkupString">>, delim |-> <<"">>, disp |-> "t-str", groups |-> <<"TextMarkup">>, hidden |-> FALSE, ingroups |-> <<"TextMarkup">>, into |-> "t-str", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG">>, pann |-> <<"STRING">>, pc |-> FALSE, primary |-> FALSE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "TextMarkupString", tag |-> "t-str", tc |-> TRUE, wrefable |-> FALSE, xlink |-> TRUE, xmltag |-> "t-str"],
  [acce |-> <<"Comment", "Description", "Feature", "FontFeature", "Linebreak", "SizeFeature">>, accg |-> <<"TextMarkup">>, ann |-> <<"STYLE">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"TextMarkupStyle">>, delim |-> <<"">>, disp |-> "t-style", groups |-> <<"TextMarkup">>, hidden |-> FALSE, ingroups |-> <<"TextMarkup">>, into |-> "t-style", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG">>, pann |-> <<"STYLE">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "TextMarkupStyle", tag |-> "t-style", tc |-> TRUE, wrefable |-> FALSE, xlink |-> TRUE, xmltag |-> "t-style"],
  [acce |-> <<"Comment", "Description", "Feature", "Linebreak">>, accg |-> <<"TextMarkup">>, ann |-> <<"WHITESPACE">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"TextMarkupWhitespace">>, delim |-> <<"">>, disp |-> "t-whitespace", groups |-> <<"TextMarkup">>, hidden |-> FALSE, ingroups |-> <<"TextMarkup">>, into |-> "t-whitespace", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG">>, pann |-> <<"WHITESPACE">>, pc |-> FALSE, primary |-> FALSE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "TextMarkupWhitespace", tag |-> "t-whitespace", tc |-> TRUE, wrefable |-> FALSE, xlink |-> TRUE, xmltag |-> "t-whitespace"],
  [acce |-> <<"Comment", "Description">>, accg |-> <<>>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"TimeFeature">>, delim |-> <<>>, disp |-> "time", groups |-> <<"Feature">>, hidden |-> FALSE, ingroups |-> <<"Feature">>, into |-> "time", label |-> "Feature", occ |-> 0, occs |-> 0, opta |-> <<>>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<"time">>, t |-> "TimeFeature", tag |-> "time", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> ""],
  [acce |-> <<"ActorFeature", "BegindatetimeFeature", "Comment", "Description", "EnddatetimeFeature", "Feature", "ForeignData", "LinkReference", "Metric", "Relation", "WordReference">>, accg |-> <<"Inline">>, ann |-> <<"TIMESEGMENT">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"TimeSegment">>, delim |-> <<>>, disp |-> "timesegment", groups |-> <<"Span">>, hidden |-> FALSE, ingroups |-> <<"Span">>, into |-> "timesegment", label |-> "Time Segment", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<"TIMESEGMENT">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "TimeSegment", tag |-> "timesegment", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "timesegment"],
  [acce |-> <<"Comment", "Correction", "Description", "ForeignData", "TimeSegment">>, accg |-> <<>>, ann |-> <<"TIMESEGMENT">>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"TimingLayer">>, delim |-> <<>>, disp |-> "timing", groups |-> <<"Layer">>, hidden |-> FALSE, ingroups |-> <<"Layer">>, into |-> "timing", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"ID", "TAG">>, pann |-> <<"TIMESEGMENT">>, pc |-> FALSE, primary |-> FALSE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> TRUE, speakable |-> FALSE, subset |-> <<>>, t |-> "TimingLayer", tag |-> "timing", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "timing"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Gap", "Hiddenword", "Metric", "Note", "Part", "PhonContent", "Quote", "Reference", "Relation", "Sentence", "String", "TextContent", "Word">>, accg |-> <<"Layer", "Inline">>, ann |-> <<"UTTERANCE">>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Utterance">>, delim |-> <<" ">>, disp |-> "utt", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "utt", label |-> "Utterance", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<"UTTERANCE">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Utterance", tag |-> "utt", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "utt"],
  [acce |-> <<"Comment", "Description">>, accg |-> <<>>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"ValueFeature">>, delim |-> <<>>, disp |-> "value", groups |-> <<"Feature">>, hidden |-> FALSE, ingroups |-> <<"Feature">>, into |-> "value", label |-> "Feature", occ |-> 0, occs |-> 0, opta |-> <<>>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<"value">>, t |-> "ValueFeature", tag |-> "value", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> ""],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Metric", "Part", "Relation">>, accg |-> <<"Layer">>, ann |-> <<"WHITESPACE">>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Whitespace">>, delim |-> <<"">>, disp |-> "whitespace", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "whitespace", label |-> "Whitespace", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG">>, pann |-> <<"WHITESPACE">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Whitespace", tag |-> "whitespace", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "whitespace"],
  [acce |-> <<"Alternative", "AlternativeLayers", "Comment", "Correction", "Description", "External", "Feature", "ForeignData", "Metric", "Part", "PhonContent", "Reference", "Relation", "String", "TextContent">>, accg |-> <<"Layer", "Inline">>, ann |-> <<"TOKEN">>, auth |-> TRUE, autoid |-> TRUE, back |-> <<"Word">>, delim |-> <<" ">>, disp |-> "w", groups |-> <<"Structure">>, hidden |-> FALSE, ingroups |-> <<"Structure">>, into |-> "w", label |-> "Word/Token", occ |-> 0, occs |-> 0, opta |-> <<"ANNOTATOR", "BEGINTIME", "CLASS", "CONFIDENCE", "DATETIME", "ENDTIME", "ID", "METADATA", "N", "SPACE", "SPEAKER", "SRC", "TAG", "TEXTCLASS">>, pann |-> <<"TOKEN">>, pc |-> FALSE, primary |-> TRUE, printable |-> TRUE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> TRUE, subset |-> <<>>, t |-> "Word", tag |-> "w", tc |-> FALSE, wrefable |-> TRUE, xlink |-> FALSE, xmltag |-> "w"],
  [acce |-> <<"Comment", "Description">>, accg |-> <<>>, ann |-> <<>>, auth |-> TRUE, autoid |-> FALSE, back |-> <<"WordReference">>, delim |-> <<>>, disp |-> "wref", groups |-> <<>>, hidden |-> FALSE, ingroups |-> <<>>, into |-> "wref", label |-> "", occ |-> 0, occs |-> 0, opta |-> <<"IDREF", "TAG">>, pann |-> <<>>, pc |-> FALSE, primary |-> TRUE, printable |-> FALSE, reqa |-> <<>>, reqe |-> <<>>, reqg |-> <<>>, setonly |-> FALSE, speakable |-> FALSE, subset |-> <<>>, t |-> "WordReference", tag |-> "wref", tc |-> FALSE, wrefable |-> FALSE, xlink |-> FALSE, xmltag |-> "wref"] >>

Ref_anns == <<
  [a |-> "TEXT", back |-> <<"TEXT">>, disp |-> "text", el |-> "TextContent", elstr |-> "t", into |-> "text", intoel |-> "TextContent", layer |-> <<>>, name |-> "text"],
  [a |-> "TOKEN", back |-> <<"TOKEN">>, disp |-> "token", el |-> "Word", elstr |-> "w", into |-> "token", intoel |-> "Word", layer |-> <<>>, name |-> "token"],
  [a |-> "DIVISION", back |-> <<"DIVISION">>, disp |-> "division", el |-> "Division", elstr |-> "div", into |-> "division", intoel |-> "Division", layer |-> <<>>, name |-> "division"],
  [a |-> "PARAGRAPH", back |-> <<"PARAGRAPH">>, disp |-> "paragraph", el |-> "Paragraph", elstr |-> "p", into |-> "paragraph", intoel |-> "Paragraph", layer |-> <<>>, name |-> "paragraph"],
  [a |-> "HEAD", back |-> <<"HEAD">>, disp |-> "head", el |-> "Head", elstr |-> "head", into |-> "head", intoel |-> "Head", layer |-> <<>>, name |-> "head"],
  [a |-> "LIST", back |-> <<"LIST">>, disp |-> "list", el |-> "List", elstr |-> "list", into |-> "list", intoel |-> "List", layer |-> <<>>, name |-> "list"],
  [a |-> "FIGURE", back |-> <<"FIGURE">>, disp |-> "figure", el |-> "Figure", elstr |-> "figure", into |-> "figure", intoel |-> "Figure", layer |-> <<>>, name |-> "figure"],
  [a |-> "WHITESPACE", back |-> <<"WHITESPACE">>, disp |-> "whitespace", el |-> "Whitespace", elstr |-> "whitespace", into |-> "whitespace", intoel |-> "Whitespace", layer |-> <<>>, name |-> "whitespace"],
  [a |-> "LINEBREAK", back |-> <<"LINEBREAK">>, disp |-> "linebreak", el |-> "Linebreak", elstr |-> "br", into |-> "linebreak", intoel |-> "Linebreak", layer |-> <<>>, name |-> "linebreak"],
  [a |-> "SENTENCE", back |-> <<"SENTENCE">>, disp |-> "sentence", el |-> "Sentence", elstr |-> "s", into |-> "sentence", intoel |-> "Sentence", layer |-> <<>>, name |-> "sentence"],
  [a |-> "POS", back |-> <<"POS">>, disp |-> "pos", el |-> "PosAnnotation", elstr |-> "pos", into |-> "pos", intoel |-> "PosAnnotation", layer |-> <<>>, name |-> "pos"],
  [a |-> "LEMMA", back |-> <<"LEMMA">>, disp |-> "lemma", el |-> "LemmaAnnotation", elstr |-> "lemma", into |-> "lemma", intoel |-> "LemmaAnnotation", layer |-> <<>>, name |-> "lemma"],
  [a |-> "DOMAIN", back |-> <<"DOMAIN">>, disp |-> "domain", el |-> "DomainAnnotation", elstr |-> "domain", into |-> "domain", intoel |-> "DomainAnnotation", layer |-> <<>>, name |-> "domain"],
  [a |-> "SENSE", back |-> <<"SENSE">>, disp |-> "sense", el |-> "SenseAnnotation", elstr |-> "sense", into |-> "sense", intoel |-> "SenseAnnotation", layer |-> <<>>, name |-> "sense"],
  [a |-> "SYNTAX", back |-> <<"SYNTAX">>, disp |-> "syntax", el |-> "SyntacticUnit", elstr |-> "su", into |-> "syntax", intoel |-> "SyntacticUnit", layer |-> <<"SyntaxLayer">>, name |-> "syntax"],
  [a |-> "CHUNKING", back |-> <<"CHUNKING">>, disp |-> "chunking", el |-> "Chunk", elstr |-> "chunk", into |-> "chunking", intoel |-> "Chunk", layer |-> <<"ChunkingLayer">>, name |-> "chunking"],
  [a |-> "ENTITY", back |-> <<"ENTITY">>, disp |-> "entity", el |-> "Entity", elstr |-> "entity", into |-> "entity", intoel |-> "Entity", layer |-> <<"EntitiesLayer">>, name |-> "entity"],
  [a |-> "CORRECTION", back |-> <<"CORRECTION">>, disp |-> "correction", el |-> "Correction", elstr |-> "correction", into |-> "correction", intoel |-> "Correction", layer |-> <<>>, name |-> "correction"],
  [a |-> "ERRORDETECTION", back |-> <<"ERRORDETECTION">>, disp |-> "errordetection", el |-> "ErrorDetection", elstr |-> "errordetection", into |-> "errordetection", intoel |-> "ErrorDetection", layer |-> <<>>, name |-> "errordetection"],
  [a |-> "PHON", back |-> <<"PHON">>, disp |-> "phon", el |-> "PhonContent", elstr |-> "ph", into |-> "phon", intoel |-> "PhonContent", layer |-> <<>>, name |-> "phon"],
  [a |-> "SUBJECTIVITY", back |-> <<"SUBJECTIVITY">>, disp |-> "subjectivity", el |-> "SubjectivityAnnotation", elstr |-> "subjectivity", into |-> "subjectivity", intoel |-> "SubjectivityAnnotation", layer |-> <<>>, name |-> "subjectivity"],
  [a |-> "MORPHOLOGICAL", back |-> <<"MORPHOLOGICAL">>, disp |-> "morphological", el |-> "Morpheme", elstr |-> "morpheme", into |-> "morphological", intoel |-> "Morpheme", layer |-> <<"MorphologyLayer">>, name |-> "morphological"],
  [a |-> "EVENT", back |-> <<"EVENT">>, disp |-> "event", el |-> "Event", elstr |-> "event", into |-> "event", intoel |-> "Event", layer |-> <<>>, name |-> "event"],
  [a |-> "DEPENDENCY", back |-> <<"DEPENDENCY">>, disp |-> "dependency", el |-> "Dependency", elstr |-> "dependency", into |-> "dependency", intoel |-> "Dependency", layer |-> <<"DependenciesLayer">>, name |-> "dependency"],
  [a |-> "TIMESEGMENT", back |-> <<"TIMESEGMENT">>, disp |-> "timesegment", el |-> "TimeSegment", elstr |-> "timesegment", into |-> "timesegment", intoel |-> "TimeSegment", layer |-> <<"TimingLayer">>, name |-> "timesegment"],
  [a |-> "GAP", back |-> <<"GAP">>, disp |-> "gap", el |-> "Gap", elstr |-> "gap", into |-> "gap", intoel |-> "Gap", layer |-> <<>>, name |-> "gap"],
  [a |-> "QUOTE", back |-> <<"QUOTE">>, disp |-> "quote", el |-> "Quote", elstr |-> "quote", into |-> "quote", intoel |-> "Quote", layer |-> <<>>, name |-> "quote"],
  [a |-> "NOTE", back |-> <<"NOTE">>, disp |-> "note", el |-> "Note", elstr |-> "note", into |-> "note", intoel |-> "Note", layer |-> <<>>, name |-> "note"],
  [a |-> "REFERENCE", back |-> <<"REFERENCE">>, disp |-> "reference", el |-> "Reference", elstr |-> "ref", into |-> "reference", intoel |-> "Reference", layer |-> <<>>, name |-> "reference"],
  [a |-> "RELATION", back |-> <<"RELATION">>, disp |-> "relation", el |-> "Relation", elstr |-> "relation", into |-> "relation", intoel |-> "Relation", layer |-> <<>>, name |-> "relation"],
  [a |-> "SPANRELATION", back |-> <<"SPANRELATION">>, disp |-> "spanrelation", el |-> "SpanRelation", elstr |-> "spanrelation", into |-> "spanrelation", intoel |-> "SpanRelation", layer |-> <<"SpanRelationLayer">>, name |-> "spanrelation"],
  [a |-> "COREFERENCE", back |-> <<"COREFERENCE">>, disp |-> "coreference", el |-> "CoreferenceChain", elstr |-> "coreferencechain", into |-> "coreference", intoel |-> "CoreferenceChain", layer |-> <<"CoreferenceLayer">>, name |-> "coreference"],
  [a |-> "SEMROLE", back |-> <<"SEMROLE">>, disp |-> "semrole", el |-> "SemanticRole", elstr |-> "semrole", into |-> "semrole", intoel |-> "SemanticRole", layer |-> <<"SemanticRolesLayer">>, name |-> "semrole"],
  [a |-> "METRIC", back |-> <<"METRIC">>, disp |-> "metric", el |-> "Metric", elstr |-> "metric", into |-> "metric", intoel |-> "Metric", layer |-> <<>>, name |-> "metric"],
  [a |-> "LANG", back |-> <<"LANG">>, disp |-> "lang", el |-> "LangAnnotation", elstr |-> "lang", into |-> "lang", intoel |-> "LangAnnotation", layer |-> <<>>, name |-> "lang"],
  [a |-> "STRING", back |-> <<"STRING">>, disp |-> "string", el |-> "String", elstr |-> "str", into |-> "string", intoel |-> "String", layer |-> <<>>, name |-> "string"],
  [a |-> "TABLE", back |-> <<"TABLE">>, disp |-> "table", el |-> "Table", elstr |-> "table", into |-> "table", intoel |-> "Table", layer |-> <<>>, name |-> "table"],
  [a |-> "STYLE", back |-> <<"STYLE">>, disp |-> "style", el |-> "TextMarkupStyle", elstr |-> "t-style", into |-> "style", intoel |-> "TextMarkupStyle", layer |-> <<>>, name |-> "style"],
  [a |-> "PART", back |-> <<"PART">>, disp |-> "part", el |-> "Part", elstr |-> "part", into |-> "part", intoel |-> "Part", layer |-> <<>>, name |-> "part"],
  [a |-> "UTTERANCE", back |-> <<"UTTERANCE">>, disp |-> "utterance", el |-> "Utterance", elstr |-> "utt", into |-> "utterance", intoel |-> "Utterance", layer |-> <<>>, name |-> "utterance"],
  [a |-> "ENTRY", back |-> <<"ENTRY">>, disp |-> "entry", el |-> "Entry", elstr |-> "entry", into |-> "entry", intoel |-> "Entry", layer |-> <<>>, name |-> "entry"],
  [a |-> "TERM", back |-> <<"TERM">>, disp |-> "term", el |-> "Term", elstr |-> "term", into |-> "term", intoel |-> "Term", layer |-> <<>>, name |-> "term"],
  [a |-> "DEFINITION", back |-> <<"DEFINITION">>, disp |-> "definition", el |-> "Definition", elstr |-> "def", into |-> "definition", intoel |-> "Definition", layer |-> <<>>, name |-> "definition"],
  [a |-> "EXAMPLE", back |-> <<"EXAMPLE">>, disp |-> "example", el |-> "Example", elstr |-> "ex", into |-> "example", intoel |-> "Example", layer |-> <<>>, name |-> "example"],
  [a |-> "PHONOLOGICAL", back |-> <<"PHONOLOGICAL">>, disp |-> "phonological", el |-> "Phoneme", elstr |-> "phoneme", into |-> "phonological", intoel |-> "Phoneme", layer |-> <<"PhonologyLayer">>, name |-> "phonological"],
  [a |-> "PREDICATE", back |-> <<"PREDICATE">>, disp |-> "predicate", el |-> "Predicate", elstr |-> "predicate", into |-> "predicate", intoel |-> "Predicate", layer |-> <<"SemanticRolesLayer">>, name |-> "predicate"],
  [a |-> "OBSERVATION", back |-> <<"OBSERVATION">>, disp |-> "observation", el |-> "Observation", elstr |-> "observation", into |-> "observation", intoel |-> "Observation", layer |-> <<"ObservationLayer">>, name |-> "observation"],
  [a |-> "SENTIMENT", back |-> <<"SENTIMENT">>, disp |-> "sentiment", el |-> "Sentiment", elstr |-> "sentiment", into |-> "sentiment", intoel |-> "Sentiment", layer |-> <<"SentimentLayer">>, name |-> "sentiment"],
  [a |-> "STATEMENT", back |-> <<"STATEMENT">>, disp |-> "statement", el |-> "Statement", elstr |-> "statement", into |-> "statement", intoel |-> "Statement", layer |-> <<"StatementLayer">>, name |-> "statement"],
  [a |-> "ALTERNATIVE", back |-> <<"ALTERNATIVE">>, disp |-> "alternative", el |-> "Alternative", elstr |-> "alt", into |-> "alternative", intoel |-> "Alternative", layer |-> <<>>, name |-> "alternative"],
  [a |-> "RAWCONTENT", back |-> <<"RAWCONTENT">>, disp |-> "rawcontent", el |-> "Content", elstr |-> "content", into |-> "rawcontent", intoel |-> "Content", layer |-> <<>>, name |-> "rawcontent"],
  [a |-> "COMMENT", back |-> <<"COMMENT">>, disp |-> "comment", el |-> "Comment", elstr |-> "comment", into |-> "comment", intoel |-> "Comment", layer |-> <<>>, name |-> "comment"],
  [a |-> "DESCRIPTION", back |-> <<"DESCRIPTION">>, disp |-> "description", el |-> "Description", elstr |-> "desc", into |-> "description", intoel |-> "Description", layer |-> <<>>, name |-> "description"],
  [a |-> "HYPHENATION", back |-> <<"HYPHENATION">>, disp |-> "hyphenation", el |-> "Hyphbreak", elstr |-> "t-hbr", into |-> "hyphenation", intoel |-> "Hyphbreak", layer |-> <<>>, name |-> "hyphenation"],
  [a |-> "HIDDENTOKEN", back |-> <<"HIDDENTOKEN">>, disp |-> "hiddentoken", el |-> "Hiddenword", elstr |-> "hiddenw", into |-> "hiddentoken", intoel |-> "Hiddenword", layer |-> <<>>, name |-> "hiddentoken"],
  [a |-> "MODALITY", back |-> <<"MODALITY">>, disp |-> "modality", el |-> "Modality", elstr |-> "modality", into |-> "modality", intoel |-> "Modality", layer |-> <<"ModalitiesLayer">>, name |-> "modality"],
  [a |-> "EXTERNAL", back |-> <<"EXTERNAL">>, disp |-> "external", el |-> "External", elstr |-> "external", into |-> "external", intoel |-> "External", layer |-> <<>>, name |-> "external"],
  [a |-> "HSPACE", back |-> <<"HSPACE">>, disp |-> "hspace", el |-> "TextMarkupHSpace", elstr |-> "t-hspace", into |-> "hspace", intoel |-> "TextMarkupHSpace", layer |-> <<>>, name |-> "hspace"] >>

Ref_groups == <<
  [g |-> "Layer", m |-> <<"ChunkingLayer", "SpanRelationLayer", "CoreferenceLayer", "DependenciesLayer", "EntitiesLayer", "MorphologyLayer", "ObservationLayer", "PhonologyLayer", "SemanticRolesLayer", "SentimentLayer", "StatementLayer", "SyntaxLayer", "TimingLayer", "ModalitiesLayer">>],
  [g |-> "Content", m |-> <<"TextContent", "PhonContent", "Content">>],
  [g |-> "CorrectionChild", m |-> <<"Current", "New", "Original", "Suggestion">>],
  [g |-> "HigherOrder", m |-> <<"Relation", "Alternative", "AlternativeLayers", "SpanRelation", "Correction", "Comment", "Description", "External", "Feature", "Metric", "String", "ForeignData", "Gap">>],
  [g |-> "Inline", m |-> <<"DomainAnnotation", "ErrorDetection", "LangAnnotation", "LemmaAnnotation", "PosAnnotation", "SenseAnnotation", "SubjectivityAnnotation">>],
  [g |-> "Span", m |-> <<"Chunk", "CoreferenceChain", "Modality", "Dependency", "Entity", "Observation", "Predicate", "SemanticRole", "Sentiment", "Statement", "SyntacticUnit", "TimeSegment">>],
  [g |-> "SpanRole", m |-> <<"CoreferenceLink", "DependencyDependent", "Headspan", "StatementRelation", "Source", "Target", "Cue", "Scope">>],
  [g |-> "Structure", m |-> <<"Caption", "Cell", "Definition", "Division", "Entry", "Event", "Example", "Figure", "Head", "Hiddenword", "Label", "Linebreak", "List", "ListItem", "Note", "Paragraph", "Part", "Quote", "Reference", "Row", "Sentence", "Speech", "Table", "TableHead", "Term", "Text", "Utterance", "Whitespace", "Word">>],
  [g |-> "Subtoken", m |-> <<"Morpheme", "Phoneme">>],
  [g |-> "TextMarkup", m |-> <<"TextMarkupCorrection", "TextMarkupError", "TextMarkupGap", "TextMarkupString", "TextMarkupStyle", "Hyphbreak", "TextMarkupReference", "TextMarkupWhitespace", "TextMarkupHSpace", "TextMarkupLanguage">>],
  [g |-> "Feature", m |-> <<"ActorFeature", "BegindatetimeFeature", "EnddatetimeFeature", "FunctionFeature", "HeadFeature", "LevelFeature", "ModalityFeature", "PolarityFeature", "StrengthFeature", "StyleFeature", "SynsetFeature", "TimeFeature", "ValueFeature", "FontFeature", "SizeFeature">>] >>

Ref_attribs == <<
  [a |-> "ID", name |-> "xml:id"],
  [a |-> "SET", name |-> "set"],
  [a |-> "CLASS", name |-> "class"],
  [a |-> "ANNOTATOR", name |-> "annotator"],
  [a |-> "ANNOTATORTYPE", name |-> "annotatortype"],
  [a |-> "CONFIDENCE", name |-> "confidence"],
  [a |-> "N", name |-> "n"],
  [a |-> "DATETIME", name |-> "datetime"],
  [a |-> "BEGINTIME", name |-> "begintime"],
  [a |-> "ENDTIME", name |-> "endtime"],
  [a |-> "SRC", name |-> "src"],
  [a |-> "SPEAKER", name |-> "speaker"],
  [a |-> "TEXTCLASS", name |-> "textclass"],
  [a |-> "METADATA", name |-> "metadata"],
  [a |-> "IDREF", name |-> "id"],
  [a |-> "SPACE", name |-> "space"],
  [a |-> "PROCESSOR", name |-> "processor"],
  [a |-> "HREF", name |-> "xlink:href"],
  [a |-> "FORMAT", name |-> "format"],
  [a |-> "SUBSET", name |-> "subset"],
  [a |-> "TEXT", name |-> "t"],
  [a |-> "TYPE", name |-> "type"],
  [a |-> "AUTH", name |-> "auth"],
  [a |-> "OFFSET", name |-> "offset"],
  [a |-> "REF", name |-> "ref"],
  [a |-> "ORIGINAL", name |-> "original"],
  [a |-> "LINENR", name |-> "linenr"],
  [a |-> "PAGENR", name |-> "pagenr"],
  [a |-> "NEWPAGE", name |-> "newpage"],
  [a |-> "XLINKTYPE", name |-> "xlink:type"],
  [a |-> "TAG", name |-> "tag"] >>

====================================================================================
