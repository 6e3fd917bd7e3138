------------------------------- MODULE MCSlices -------------------------------
EXTENDS Slices
Small == {<<a, b, c>> : a \in {1, 2, 4}, b \in {1, 3}, c \in {1, 2, 4}}
Cubes == {<<13, 14, 15>>, <<16, 12, 13>>, <<12, 16, 14>>, <<14, 14, 14>>, <<13, 15, 13>>, <<15, 15, 12>>, <<12, 16, 16>>}
Thin == {<<44, 46, 2>>, <<2, 47, 44>>, <<45, 4, 44>>, <<44, 5, 44>>, <<45, 45, 1>>}
Wide == {<<46, 44, 5>>, <<1, 44, 45>>, <<44, 2, 47>>, <<50, 45, 1>>}
MCShapes == Small \cup Cubes \cup Thin
MCEmitted == Cubes \cup Thin
MCShapesT == MCShapes \cup Wide
MCEmittedT == MCEmitted \cup Wide
===============================================================================
