//@@include iter0.inc
//@@include strict.inc
