SPECIFICATION MCSpec
CONSTANTS Depth = 4
 MaxObjs = 2
 MaxTexts = 2
 Gen = FALSE
VIEW View
INVARIANTS Agree SameHistory SameText
PROPERTIES TextsStay OneAtATime WritingKeeps ReadingKeeps
CHECK_DEADLOCK FALSE
