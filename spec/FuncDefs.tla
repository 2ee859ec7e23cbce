------------------------------ MODULE FuncDefs ------------------------------
(* The worksheet functions a formula may call: at position number + 1, the name
   (UTF-16 units) and the fewest and most arguments; <<>> where none exists.
   Written out once from the reference list of the file format.              *)
EXTENDS Integers, Sequences
FuncTable == <<
   <<<<67, 79, 85, 78, 84>>, 0, 30>>,
   <<<<73, 70>>, 2, 3>>,
   <<<<73, 83, 78, 65>>, 1, 1>>,
   <<<<73, 83, 69, 82, 82, 79, 82>>, 1, 1>>,
   <<<<83, 85, 77>>, 0, 30>>,
   <<<<65, 86, 69, 82, 65, 71, 69>>, 1, 30>>,
   <<<<77, 73, 78>>, 1, 30>>,
   <<<<77, 65, 88>>, 1, 30>>,
   <<<<82, 79, 87>>, 0, 1>>,
   <<<<67, 79, 76, 85, 77, 78>>, 0, 1>>,
   <<<<78, 65>>, 0, 0>>,
   <<<<78, 80, 86>>, 2, 30>>,
   <<<<83, 84, 68, 69, 86>>, 1, 30>>,
   <<<<68, 79, 76, 76, 65, 82>>, 1, 2>>,
   <<<<70, 73, 88, 69, 68>>, 2, 3>>,
   <<<<83, 73, 78>>, 1, 1>>,
   <<<<67, 79, 83>>, 1, 1>>,
   <<<<84, 65, 78>>, 1, 1>>,
   <<<<65, 84, 65, 78>>, 1, 1>>,
   <<<<80, 73>>, 0, 0>>,
   <<<<83, 81, 82, 84>>, 1, 1>>,
   <<<<69, 88, 80>>, 1, 1>>,
   <<<<76, 78>>, 1, 1>>,
   <<<<76, 79, 71, 49, 48>>, 1, 1>>,
   <<<<65, 66, 83>>, 1, 1>>,
   <<<<73, 78, 84>>, 1, 1>>,
   <<<<83, 73, 71, 78>>, 1, 1>>,
   <<<<82, 79, 85, 78, 68>>, 2, 2>>,
   <<<<76, 79, 79, 75, 85, 80>>, 2, 3>>,
   <<<<73, 78, 68, 69, 88>>, 2, 4>>,
   <<<<82, 69, 80, 84>>, 2, 2>>,
   <<<<77, 73, 68>>, 3, 3>>,
   <<<<76, 69, 78>>, 1, 1>>,
   <<<<86, 65, 76, 85, 69>>, 1, 1>>,
   <<<<84, 82, 85, 69>>, 0, 0>>,
   <<<<70, 65, 76, 83, 69>>, 0, 0>>,
   <<<<65, 78, 68>>, 1, 30>>,
   <<<<79, 82>>, 1, 30>>,
   <<<<78, 79, 84>>, 1, 1>>,
   <<<<77, 79, 68>>, 2, 2>>,
   <<<<68, 67, 79, 85, 78, 84>>, 3, 3>>,
   <<<<68, 83, 85, 77>>, 3, 3>>,
   <<<<68, 65, 86, 69, 82, 65, 71, 69>>, 3, 3>>,
   <<<<68, 77, 73, 78>>, 3, 3>>,
   <<<<68, 77, 65, 88>>, 3, 3>>,
   <<<<68, 83, 84, 68, 69, 86>>, 3, 3>>,
   <<<<86, 65, 82>>, 1, 30>>,
   <<<<68, 86, 65, 82>>, 3, 3>>,
   <<<<84, 69, 88, 84>>, 2, 2>>,
   <<<<76, 73, 78, 69, 83, 84>>, 1, 4>>,
   <<<<84, 82, 69, 78, 68>>, 1, 4>>,
   <<<<76, 79, 71, 69, 83, 84>>, 1, 4>>,
   <<<<71, 82, 79, 87, 84, 72>>, 1, 4>>,
   <<>>,
   <<>>,
   <<>>,
   <<<<80, 86>>, 3, 5>>,
   <<<<70, 86>>, 3, 5>>,
   <<<<78, 80, 69, 82>>, 3, 5>>,
   <<<<80, 77, 84>>, 3, 5>>,
   <<<<82, 65, 84, 69>>, 3, 6>>,
   <<<<77, 73, 82, 82>>, 3, 3>>,
   <<<<73, 82, 82>>, 1, 2>>,
   <<<<82, 65, 78, 68>>, 0, 0>>,
   <<<<77, 65, 84, 67, 72>>, 2, 3>>,
   <<<<68, 65, 84, 69>>, 3, 3>>,
   <<<<84, 73, 77, 69>>, 3, 3>>,
   <<<<68, 65, 89>>, 1, 1>>,
   <<<<77, 79, 78, 84, 72>>, 1, 1>>,
   <<<<89, 69, 65, 82>>, 1, 1>>,
   <<<<87, 69, 69, 75, 68, 65, 89>>, 1, 2>>,
   <<<<72, 79, 85, 82>>, 1, 1>>,
   <<<<77, 73, 78, 85, 84, 69>>, 1, 1>>,
   <<<<83, 69, 67, 79, 78, 68>>, 1, 1>>,
   <<<<78, 79, 87>>, 0, 0>>,
   <<<<65, 82, 69, 65, 83>>, 1, 1>>,
   <<<<82, 79, 87, 83>>, 1, 1>>,
   <<<<67, 79, 76, 85, 77, 78, 83>>, 1, 1>>,
   <<<<79, 70, 70, 83, 69, 84>>, 3, 5>>,
   <<>>,
   <<>>,
   <<>>,
   <<<<83, 69, 65, 82, 67, 72>>, 2, 3>>,
   <<<<84, 82, 65, 78, 83, 80, 79, 83, 69>>, 1, 1>>,
   <<>>,
   <<>>,
   <<<<84, 89, 80, 69>>, 1, 1>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<<<83, 69, 82, 73, 69, 83, 83, 85, 77>>, 4, 4>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<<<65, 84, 65, 78, 50>>, 2, 2>>,
   <<<<65, 83, 73, 78>>, 1, 1>>,
   <<<<65, 67, 79, 83>>, 1, 1>>,
   <<<<67, 72, 79, 79, 83, 69>>, 2, 30>>,
   <<<<72, 76, 79, 79, 75, 85, 80>>, 3, 4>>,
   <<<<86, 76, 79, 79, 75, 85, 80>>, 3, 4>>,
   <<>>,
   <<>>,
   <<<<73, 83, 82, 69, 70>>, 1, 1>>,
   <<>>,
   <<>>,
   <<>>,
   <<<<76, 79, 71>>, 1, 2>>,
   <<>>,
   <<<<67, 72, 65, 82>>, 1, 1>>,
   <<<<76, 79, 87, 69, 82>>, 1, 1>>,
   <<<<85, 80, 80, 69, 82>>, 1, 1>>,
   <<<<80, 82, 79, 80, 69, 82>>, 1, 1>>,
   <<<<76, 69, 70, 84>>, 1, 2>>,
   <<<<82, 73, 71, 72, 84>>, 1, 2>>,
   <<<<69, 88, 65, 67, 84>>, 2, 2>>,
   <<<<84, 82, 73, 77>>, 1, 1>>,
   <<<<82, 69, 80, 76, 65, 67, 69>>, 4, 4>>,
   <<<<83, 85, 66, 83, 84, 73, 84, 85, 84, 69>>, 3, 4>>,
   <<<<67, 79, 68, 69>>, 1, 1>>,
   <<>>,
   <<>>,
   <<<<70, 73, 78, 68>>, 2, 3>>,
   <<<<67, 69, 76, 76>>, 1, 2>>,
   <<<<73, 83, 69, 82, 82>>, 1, 1>>,
   <<<<73, 83, 84, 69, 88, 84>>, 1, 1>>,
   <<<<73, 83, 78, 85, 77, 66, 69, 82>>, 1, 1>>,
   <<<<73, 83, 66, 76, 65, 78, 75>>, 1, 1>>,
   <<<<84>>, 1, 1>>,
   <<<<78>>, 1, 1>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<<<68, 65, 84, 69, 86, 65, 76, 85, 69>>, 1, 1>>,
   <<<<84, 73, 77, 69, 86, 65, 76, 85, 69>>, 1, 1>>,
   <<<<83, 76, 78>>, 3, 3>>,
   <<<<83, 89, 68>>, 4, 4>>,
   <<<<68, 68, 66>>, 4, 5>>,
   <<>>,
   <<>>,
   <<>>,
   <<<<73, 78, 68, 73, 82, 69, 67, 84>>, 1, 2>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<<<67, 76, 69, 65, 78>>, 1, 1>>,
   <<<<77, 68, 69, 84, 69, 82, 77>>, 1, 1>>,
   <<<<77, 73, 78, 86, 69, 82, 83, 69>>, 1, 1>>,
   <<<<77, 77, 85, 76, 84>>, 2, 2>>,
   <<>>,
   <<<<73, 80, 77, 84>>, 4, 6>>,
   <<<<80, 80, 77, 84>>, 4, 6>>,
   <<<<67, 79, 85, 78, 84, 65>>, 0, 30>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<<<80, 82, 79, 68, 85, 67, 84>>, 0, 30>>,
   <<<<70, 65, 67, 84>>, 1, 1>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<<<68, 80, 82, 79, 68, 85, 67, 84>>, 3, 3>>,
   <<<<73, 83, 78, 79, 78, 84, 69, 88, 84>>, 1, 1>>,
   <<>>,
   <<>>,
   <<<<83, 84, 68, 69, 86, 80>>, 1, 30>>,
   <<<<86, 65, 82, 80>>, 1, 30>>,
   <<<<68, 83, 84, 68, 69, 86, 80>>, 3, 3>>,
   <<<<68, 86, 65, 82, 80>>, 3, 3>>,
   <<<<84, 82, 85, 78, 67>>, 1, 2>>,
   <<<<73, 83, 76, 79, 71, 73, 67, 65, 76>>, 1, 1>>,
   <<<<68, 67, 79, 85, 78, 84, 65>>, 3, 3>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<<<85, 83, 68, 79, 76, 76, 65, 82>>, 1, 2>>,
   <<<<70, 73, 78, 68, 66>>, 2, 3>>,
   <<<<83, 69, 65, 82, 67, 72, 66>>, 2, 3>>,
   <<<<82, 69, 80, 76, 65, 67, 69, 66>>, 4, 4>>,
   <<<<76, 69, 70, 84, 66>>, 1, 2>>,
   <<<<82, 73, 71, 72, 84, 66>>, 1, 2>>,
   <<<<77, 73, 68, 66>>, 3, 3>>,
   <<<<76, 69, 78, 66>>, 1, 1>>,
   <<<<82, 79, 85, 78, 68, 85, 80>>, 2, 2>>,
   <<<<82, 79, 85, 78, 68, 68, 79, 87, 78>>, 2, 2>>,
   <<<<65, 83, 67>>, 1, 1>>,
   <<<<68, 66, 67, 83>>, 1, 1>>,
   <<<<82, 65, 78, 75>>, 2, 3>>,
   <<>>,
   <<>>,
   <<<<65, 68, 68, 82, 69, 83, 83>>, 2, 5>>,
   <<<<68, 65, 89, 83, 51, 54, 48>>, 2, 3>>,
   <<<<84, 79, 68, 65, 89>>, 0, 0>>,
   <<<<86, 68, 66>>, 5, 7>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<<<77, 69, 68, 73, 65, 78>>, 1, 30>>,
   <<<<83, 85, 77, 80, 82, 79, 68, 85, 67, 84>>, 1, 30>>,
   <<<<83, 73, 78, 72>>, 1, 1>>,
   <<<<67, 79, 83, 72>>, 1, 1>>,
   <<<<84, 65, 78, 72>>, 1, 1>>,
   <<<<65, 83, 73, 78, 72>>, 1, 1>>,
   <<<<65, 67, 79, 83, 72>>, 1, 1>>,
   <<<<65, 84, 65, 78, 72>>, 1, 1>>,
   <<<<68, 71, 69, 84>>, 3, 3>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<<<73, 78, 70, 79>>, 1, 1>>,
   <<>>,
   <<>>,
   <<<<68, 66>>, 4, 5>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<<<70, 82, 69, 81, 85, 69, 78, 67, 89>>, 2, 2>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<<<69, 82, 82, 79, 82, 46, 84, 89, 80, 69>>, 1, 1>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<<<65, 86, 69, 68, 69, 86>>, 1, 30>>,
   <<<<66, 69, 84, 65, 68, 73, 83, 84>>, 3, 5>>,
   <<<<71, 65, 77, 77, 65, 76, 78>>, 1, 1>>,
   <<<<66, 69, 84, 65, 73, 78, 86>>, 3, 5>>,
   <<<<66, 73, 78, 79, 77, 68, 73, 83, 84>>, 4, 4>>,
   <<<<67, 72, 73, 68, 73, 83, 84>>, 2, 2>>,
   <<<<67, 72, 73, 73, 78, 86>>, 2, 2>>,
   <<<<67, 79, 77, 66, 73, 78>>, 2, 2>>,
   <<<<67, 79, 78, 70, 73, 68, 69, 78, 67, 69>>, 3, 3>>,
   <<<<67, 82, 73, 84, 66, 73, 78, 79, 77>>, 3, 3>>,
   <<<<69, 86, 69, 78>>, 1, 1>>,
   <<<<69, 88, 80, 79, 78, 68, 73, 83, 84>>, 3, 3>>,
   <<<<70, 68, 73, 83, 84>>, 3, 3>>,
   <<<<70, 73, 78, 86>>, 3, 3>>,
   <<<<70, 73, 83, 72, 69, 82>>, 1, 1>>,
   <<<<70, 73, 83, 72, 69, 82, 73, 78, 86>>, 1, 1>>,
   <<<<70, 76, 79, 79, 82>>, 2, 2>>,
   <<<<71, 65, 77, 77, 65, 68, 73, 83, 84>>, 4, 4>>,
   <<<<71, 65, 77, 77, 65, 73, 78, 86>>, 3, 3>>,
   <<<<67, 69, 73, 76, 73, 78, 71>>, 2, 2>>,
   <<<<72, 89, 80, 71, 69, 79, 77, 68, 73, 83, 84>>, 4, 4>>,
   <<<<76, 79, 71, 78, 79, 82, 77, 68, 73, 83, 84>>, 3, 3>>,
   <<<<76, 79, 71, 73, 78, 86>>, 3, 3>>,
   <<<<78, 69, 71, 66, 73, 78, 79, 77, 68, 73, 83, 84>>, 3, 3>>,
   <<<<78, 79, 82, 77, 68, 73, 83, 84>>, 4, 4>>,
   <<<<78, 79, 82, 77, 83, 68, 73, 83, 84>>, 1, 1>>,
   <<<<78, 79, 82, 77, 73, 78, 86>>, 3, 3>>,
   <<<<78, 79, 82, 77, 83, 73, 78, 86>>, 1, 1>>,
   <<<<83, 84, 65, 78, 68, 65, 82, 68, 73, 90, 69>>, 3, 3>>,
   <<<<79, 68, 68>>, 1, 1>>,
   <<<<80, 69, 82, 77, 85, 84>>, 2, 2>>,
   <<<<80, 79, 73, 83, 83, 79, 78>>, 3, 3>>,
   <<<<84, 68, 73, 83, 84>>, 3, 3>>,
   <<<<87, 69, 73, 66, 85, 76, 76>>, 4, 4>>,
   <<<<83, 85, 77, 88, 77, 89, 50>>, 2, 2>>,
   <<<<83, 85, 77, 88, 50, 77, 89, 50>>, 2, 2>>,
   <<<<83, 85, 77, 88, 50, 80, 89, 50>>, 2, 2>>,
   <<<<67, 72, 73, 84, 69, 83, 84>>, 2, 2>>,
   <<<<67, 79, 82, 82, 69, 76>>, 2, 2>>,
   <<<<67, 79, 86, 65, 82>>, 2, 2>>,
   <<<<70, 79, 82, 69, 67, 65, 83, 84>>, 3, 3>>,
   <<<<70, 84, 69, 83, 84>>, 2, 2>>,
   <<<<73, 78, 84, 69, 82, 67, 69, 80, 84>>, 2, 2>>,
   <<<<80, 69, 65, 82, 83, 79, 78>>, 2, 2>>,
   <<<<82, 83, 81>>, 2, 2>>,
   <<<<83, 84, 69, 89, 88>>, 2, 2>>,
   <<<<83, 76, 79, 80, 69>>, 2, 2>>,
   <<<<84, 84, 69, 83, 84>>, 4, 4>>,
   <<<<80, 82, 79, 66>>, 3, 4>>,
   <<<<68, 69, 86, 83, 81>>, 1, 30>>,
   <<<<71, 69, 79, 77, 69, 65, 78>>, 1, 30>>,
   <<<<72, 65, 82, 77, 69, 65, 78>>, 1, 30>>,
   <<<<83, 85, 77, 83, 81>>, 0, 30>>,
   <<<<75, 85, 82, 84>>, 1, 30>>,
   <<<<83, 75, 69, 87>>, 1, 30>>,
   <<<<90, 84, 69, 83, 84>>, 2, 3>>,
   <<<<76, 65, 82, 71, 69>>, 2, 2>>,
   <<<<83, 77, 65, 76, 76>>, 2, 2>>,
   <<<<81, 85, 65, 82, 84, 73, 76, 69>>, 2, 2>>,
   <<<<80, 69, 82, 67, 69, 78, 84, 73, 76, 69>>, 2, 2>>,
   <<<<80, 69, 82, 67, 69, 78, 84, 82, 65, 78, 75>>, 2, 3>>,
   <<<<77, 79, 68, 69>>, 1, 30>>,
   <<<<84, 82, 73, 77, 77, 69, 65, 78>>, 2, 2>>,
   <<<<84, 73, 78, 86>>, 2, 2>>,
   <<>>,
   <<>>,
   <<>>,
   <<<<67, 79, 78, 67, 65, 84, 69, 78, 65, 84, 69>>, 0, 30>>,
   <<<<80, 79, 87, 69, 82>>, 2, 2>>,
   <<>>,
   <<>>,
   <<>>,
   <<>>,
   <<<<82, 65, 68, 73, 65, 78, 83>>, 1, 1>>,
   <<<<68, 69, 71, 82, 69, 69, 83>>, 1, 1>>,
   <<<<83, 85, 66, 84, 79, 84, 65, 76>>, 2, 30>>,
   <<<<83, 85, 77, 73, 70>>, 2, 3>>,
   <<<<67, 79, 85, 78, 84, 73, 70>>, 2, 2>>,
   <<<<67, 79, 85, 78, 84, 66, 76, 65, 78, 75>>, 1, 1>>,
   <<>>,
   <<>>,
   <<<<73, 83, 80, 77, 84>>, 4, 4>>,
   <<<<68, 65, 84, 69, 68, 73, 70>>, 3, 3>>,
   <<<<68, 65, 84, 69, 83, 84, 82, 73, 78, 71>>, 1, 1>>,
   <<<<78, 85, 77, 66, 69, 82, 83, 84, 82, 73, 78, 71>>, 2, 2>>,
   <<<<82, 79, 77, 65, 78>>, 1, 2>>,
   <<>>,
   <<>>,
   <<>>,
   <<<<71, 69, 84, 80, 73, 86, 79, 84, 68, 65, 84, 65>>, 2, 2>>,
   <<<<72, 89, 80, 69, 82, 76, 73, 78, 75>>, 1, 2>>,
   <<<<80, 72, 79, 78, 69, 84, 73, 67>>, 1, 1>>,
   <<<<65, 86, 69, 82, 65, 71, 69, 65>>, 1, 30>>,
   <<<<77, 65, 88, 65>>, 1, 30>>,
   <<<<77, 73, 78, 65>>, 1, 30>>,
   <<<<83, 84, 68, 69, 86, 80, 65>>, 1, 30>>,
   <<<<86, 65, 82, 80, 65>>, 1, 30>>,
   <<<<83, 84, 68, 69, 86, 65>>, 1, 30>>,
   <<<<86, 65, 82, 65>>, 1, 30>>,
   <<<<66, 65, 72, 84, 84, 69, 88, 84>>, 1, 1>>,
   <<<<84, 72, 65, 73, 68, 65, 89, 79, 70, 87, 69, 69, 75>>, 1, 1>>,
   <<<<84, 72, 65, 73, 68, 73, 71, 73, 84>>, 1, 1>>,
   <<<<84, 72, 65, 73, 77, 79, 78, 84, 72, 79, 70, 89, 69, 65, 82>>, 1, 1>>,
   <<<<84, 72, 65, 73, 78, 85, 77, 83, 79, 85, 78, 68>>, 1, 1>>,
   <<<<84, 72, 65, 73, 78, 85, 77, 83, 84, 82, 73, 78, 71>>, 1, 1>>,
   <<<<84, 72, 65, 73, 83, 84, 82, 73, 78, 71, 76, 69, 78, 71, 84, 72>>, 1, 1>>,
   <<<<73, 83, 84, 72, 65, 73, 68, 73, 71, 73, 84>>, 1, 1>>,
   <<<<82, 79, 85, 78, 68, 66, 65, 72, 84, 68, 79, 87, 78>>, 1, 1>>,
   <<<<82, 79, 85, 78, 68, 66, 65, 72, 84, 85, 80>>, 1, 1>>,
   <<<<84, 72, 65, 73, 89, 69, 65, 82>>, 1, 1>>,
   <<<<82, 84, 68>>, 2, 5>> >>
FuncKnown(f) == f + 1 \in DOMAIN FuncTable /\ FuncTable[f + 1] # <<>>
FuncName(f) == FuncTable[f + 1][1]
FuncMin(f) == FuncTable[f + 1][2]
FuncMax(f) == FuncTable[f + 1][3]
=============================================================================
