------------------------------ MODULE MCColour ------------------------------
EXTENDS Colour
MCShapes == {<<4, 5>>, <<5, 3>>, <<3, 3>>, <<3, 5>>, <<1, 3>>, <<4, 5, 3>>, <<3, 3, 3>>, <<1, 1, 3>>, <<2, 3, 3>>,
             <<4, 3, 5>>, <<3, 4, 2>>, <<3, 4, 4>>, <<2, 2, 1>>, <<3, 3, 4>>, <<5, 4, 3>>, <<7, 3>>}
=============================================================================
