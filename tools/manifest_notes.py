NOT={}
TECH={'*':'abstract interpretation of the SSA form of probe clients (relational numeric domain, value numbering, loop summarisation)'}
NOTE={'*':'Every obligation is decided for all inputs of the analysed form; what the analysis cannot decide is reported as a violation. Trusted: Go semantics, the SSA construction, the analyser itself, the documented behaviour of the standard library.'}
