NA['P29'] = 'TypeScript/JavaScript client (app/, js): the code is TypeScript and borsh/anchor JavaScript; no symbolic executor for JavaScript is installed and the code cannot be encoded within reach.'
