SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Rows = {0, 2}
  Cols = {0, 2}
  WithMerge = FALSE
  WithStyles = TRUE
  Export = TRUE
INVARIANTS LastWriteWins ExtentTight RaggedAgrees RowPrecedence EveryKeyFromHist Exported
PROPERTY Growth
