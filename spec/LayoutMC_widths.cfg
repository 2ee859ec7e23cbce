SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Part = "widths"
INVARIANTS Commute ZoomRange WidthSources Exported
