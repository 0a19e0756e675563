T = 'static analysis: path-sensitive abstract interpretation (value numbering with decision-diagram path conditions, file system answers as symbolic atoms)'
N = ('Decides the rule for every input and every stable file system state, over all paths of the current source with helpers inlined; '
     'trusts clang\'s type-checked AST and the models of std::filesystem, streams, strings and containers in sa/models.py.')
F = ['rmw_dds_common/src/security.cpp', 'rmw_dds_common/include/rmw_dds_common/security.hpp']


def P(id, title, statement, over, text, why, mech, observe, technique=T, note=N, state=()):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': F, 'state': list(state), 'mechanism': mech, 'observe_at': observe, 'hook_needed': None},
            'check': {'technique': technique, 'note': note}}


TAB = {'name': 'tables required_files / optional_files and the loops over them', 'where': 'security.cpp get_security_files'}
PROC = {'name': 'process_file_uri_security_file, process_pkcs_uri_security_file', 'where': 'security.cpp'}
OBS = ['return value and result map of rmw_dds_common::get_security_files']
IN = 'every prefix, enclave directory, prior content of the result map, PKCS#11 setting and every combination of present, absent, malformed or unreadable enclave files'
WHY = 'The tests build seven fixed directories; the guarantee ranges over all combinations of file kinds and contents (and the iteration order of an unordered table), a product no sample covers.'
PROPS = [
    P('C01', 'Security lookup is all or nothing',
      'A security enclave lookup succeeds only if every one of the six required attributes (identity CA, certificate, private key, permissions CA, governance, permissions) was found, and then the result contains all six. When it reports failure the result map is empty, whatever it held before and however many attributes had already been found. An enclave in which all six regular files exist always succeeds.',
      ['inputs', 'configurations'], IN, WHY, [TAB], OBS),
    P('C02', 'Each security attribute comes from its own designated file',
      'After a successful lookup every attribute that is given by a file has as value exactly the caller\'s prefix followed by the path of that attribute\'s designated file directly inside the enclave (enclave directory joined with the file name as file system paths are joined); attributes are never swapped, and no attribute other than the six required ones and CRL is added. An attribute given by a PKCS#11 URI takes it from that same attribute\'s own .p11 file.',
      ['inputs', 'configurations'], IN, WHY, [TAB, PROC], OBS),
    P('C03', 'PKCS#11 is used exactly when supported and usable',
      'For identity CA, certificate, private key and permissions CA, the PKCS#11 URI is chosen if and only if the caller declares PKCS#11 support and the attribute\'s .p11 file can be opened and its first token is a pkcs11: URI; otherwise the attribute falls back to its regular .pem file. Governance and permissions never come from PKCS#11. The lookup succeeds if and only if each required attribute has one of the two sources.',
      ['inputs', 'configurations'], IN, WHY, [TAB, PROC], OBS),
    P('C04', 'A PKCS#11 URI is passed through verbatim and never prefixed',
      'A value taken from a .p11 file is exactly the first whitespace-delimited token of the file, starts with "pkcs11:" at its first character, and is returned without the caller\'s prefix or any other change. A file whose first token does not start with "pkcs11:" is never used as a PKCS#11 source.',
      ['inputs'], IN, WHY, [PROC], OBS),
    P('C05', 'The certificate revocation list is optional',
      'Whether a lookup succeeds never depends on the revocation list file. On success the CRL attribute is set to the prefix followed by the path of crl.pem in the enclave exactly when that is an existing regular file; otherwise the lookup adds no CRL attribute.',
      ['inputs', 'configurations'], IN, WHY, [TAB], OBS),
    P('C06', 'Security lookup only reads, and only inside the enclave',
      'A lookup touches only files directly inside the given enclave directory, under their fixed names, and only for reading: it never creates, changes or deletes anything and never opens a path that leaves the enclave.',
      ['inputs'], IN, 'A test can only notice the effects it looks for; the absence of other file system effects on every path is a statement about the code.', [TAB, PROC], ['file system operations issued by rmw_dds_common::get_security_files'],
      technique='static analysis: effect analysis over the abstract paths (every file system operation with its symbolic path argument)'),
    P('C07', 'Lookup without the PKCS#11 argument equals lookup without support',
      'The form of the lookup that takes no PKCS#11 argument behaves, for all inputs, exactly like the full form called with PKCS#11 support turned off: same outcome and same result map.',
      ['inputs', 'configurations'], IN, WHY, [{'name': 'delegating overload', 'where': 'security.cpp get_security_files (3 parameters)'}], OBS,
      technique='static analysis: equivalence of the two overloads\' abstract summaries (guarded return values and map entries compared canonically)'),
    P('C08', 'A file that cannot be inspected counts as missing',
      'A security lookup reports problems only through its return value: if the file system cannot answer for a file (symbolic link loop, missing search permission, over-long path) the file is treated as missing. No file system exception leaves the lookup.',
      ['inputs', 'fault_sequences'], IN + ', including file system errors on any access', 'Tests never make the file system fail; every access on every path must tolerate it.', [PROC, TAB], ['exceptions leaving rmw_dds_common::get_security_files'],
      technique='static analysis: exception-effect analysis over the abstract paths'),
]
