"""A small Dart: parser, static checker and interpreter for what hbuf generates."""
