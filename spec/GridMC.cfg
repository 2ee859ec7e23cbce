SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Rows = {0, 1, 2}
  Cols = {0, 2}
  WithMerge = TRUE
  WithStyles = FALSE
  Export = TRUE
INVARIANTS LastWriteWins ExtentTight RaggedAgrees RowPrecedence EveryKeyFromHist Exported
PROPERTY Growth
