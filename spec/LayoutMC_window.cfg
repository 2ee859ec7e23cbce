SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Part = "window"
INVARIANTS Commute ZoomRange WidthSources Exported
