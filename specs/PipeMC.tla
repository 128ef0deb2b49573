------------------------------ MODULE PipeMC ------------------------------
EXTENDS Pipe
Fm == {<< <<"tag", 1>>, <<"val", 2>>, <<"hdr", 3>>, <<"data", 4>> >>, << <<"tag", 1>>, <<"hdr", 2>>, <<"data", 0>>, <<"hdr", 2>>, <<"data", 5>> >>}
Fg == {<< <<"tag", 1>>, <<"hdr", 3>>, <<"data", 4>> >>, << <<"tag", 1>>, <<"hdr", 2>>, <<"data", 0>> >>}
\* every schedule counts, and the sender is ahead
Ahead == Finished(w) \/ r = r'
=============================================================================
