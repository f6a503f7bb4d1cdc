"""properties not claimed, with the reason (read by mkmanifest.py)"""
NA = {
    'C21': 'compiling and round-tripping the generated C++ needs the COMMS library (not installed, not in this repository); the statement is about the behaviour of text produced by dozens of string '
           'templates, for which no contract of a generator function can say that the text compiles or decodes: a different technique (compile and run) would be needed',
    'C22': 'whole-program effect of an executable on the file system (output directory, code injection, placeholders spread over every template): the functions are dominated by iostream and filesystem '
           'calls whose effects are outside the verifier\'s library model, so no contract within reach decides it',
    'C23': 'floating-point text conversion (std::stod) and double formatting are library calls the verifier only has uninterpreted models for; a contract over them would assume the property',
}
