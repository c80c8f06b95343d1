----------------------------- MODULE MCImports ------------------------------
EXTENDS Imports
MCOwns    == {"a/own", "x/foo"}
MCPaths   == {"a/own", "x/foo", "y/foo", "z/go-foo"}
MCDecls   == {"", "foo", "foo1", "func", "a-b"}
MCAliases == {"foo1", "foo2", "_func", "a_b"}
=============================================================================
