"""Source of properties.jsonl and MANIFEST.json (run: python3 meta/props.py)."""
import json
import os

P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, level, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None, None, None)
    NA.append((id, reason))


SYM = ('the real generator is executed symbolically (z3 path forking), the program it emits is executed over abstract '
       'tensors, and z3 is asked for a term whose coefficient differs from the specification')
PATHS = 'the real functions are executed symbolically (z3 path forking over their source); assertions decided by z3'

TV = 'symbolic execution of the generator and of the generated program, decided by z3'
SE = 'path-forking symbolic execution of the real functions, decided by z3'

prop('P01', 'W-operator program computes the truncated exponential',
     'For every maximum order the generator accepts (1 to 6), every ansatz (VECI, VE_MIXED, VECC) and every truncation, the '
     'generated W operator of order n is the symmetrised sum of ordered products t_n1 t_n2 ... t_nk of cluster amplitudes '
     '(matrix product in the surface labels, all mode labels external, n1+...+nk = n), each with coefficient '
     '1/(k! n1! ... nk!). A product is present exactly when its largest amplitude is allowed by the truncation and either '
     'k = 1, or the ansatz is VECC, or the ansatz is VE_MIXED and at most one amplitude is of order 2 or more. The '
     'top-level function of the program returns the six W operators in order, with None for exactly those the truncation '
     'does not need (orders 1 to 3 always; order n > 3 when the truncation includes amplitudes of order n-2).',
     ['programs', 'configurations', 'inputs'],
     'every maximum order 1..6, every ansatz and monotone truncation, every product of amplitudes, every tensor value and '
     'dimension',
     'Tests compare emitted text with stored files; they never evaluate the emitted program, so nothing ties a '
     'coefficient, index or gate to its meaning, and they only reach the orders that were stored.',
     ['termfactory/code_w_equations.py', 'termfactory/helper_funcs.py'],
     ['_generate_vemx_contributions', '_generate_vecc_contributions', '_w_einsum_list', '_generate_w_operator_prefactor',
      '_write_master_w_compute_function', 'generate_un_linked_disconnected_partitions_of_n'],
     TV, 'translation_validation', SYM)

prop('P02', 'Optimised W and dt programs compute the same as the default ones',
     'The contraction-path-optimised functions that are generated next to the default ones compute, for every input, '
     'exactly the same result: for the W operators and for the time derivatives of the t amplitudes, for every order, '
     'ansatz and truncation. In particular each precomputed contraction is consumed by the term it was created for, and '
     'the shapes declared for it are those of the tensors it is applied to.',
     ['programs', 'configurations', 'inputs'],
     'every maximum order 1..6, ansatz, truncation and tensor value',
     'Tests never execute either program (opt_einsum is not even installed); the two variants come from different code '
     'paths that must stay in step term by term, for every order.',
     ['termfactory/code_w_equations.py', 'termfactory/code_dt_equations.py'],
     ['_optimized_w_einsum_list', '_write_optimized_vemx_paths_function', '_write_optimized_vecc_paths_function',
      '_generate_optimized_disconnected_einsum_function_call_list', '_write_optimized_linked_paths_function',
      '_write_optimized_unlinked_paths_function'],
     TV, 'translation_validation', SYM)

prop('P03', 'dt-amplitude program subtracts the derivative of the disconnected part of W',
     'For every maximum order (1 to 6), ansatz and truncation that includes order n, the generated program for the time '
     'derivative of t_n returns the symmetrised residual of order n minus (1/n!) w_n epsilon minus, for every product '
     't_n1 ... t_nk with k >= 2 that the ansatz admits in W_n (VECC: all; VE_MIXED: at most one amplitude of order 2 or '
     'more; VECI: none) and every choice of one factor replaced by its time derivative, that product with coefficient '
     '1/(k! n1! ... nk!). Nothing else is added or subtracted.',
     ['programs', 'configurations', 'inputs'],
     'every maximum order 1..6, ansatz, truncation, product of amplitudes and tensor value',
     'Tests compare emitted text only; that the same products with the same coefficients are subtracted as were put into '
     'W is a relation between two programs over all partitions of n.',
     ['termfactory/code_dt_equations.py', 'termfactory/helper_funcs.py'],
     ['_generate_disconnected_einsum_operands_list', '_generate_disconnected_einsum_function_call_list',
      '_write_linked_disconnected_strings', '_write_un_linked_disconnected_strings', '_write_dt_amplitude_strings'],
     TV, 'translation_validation', SYM)

prop('P04', 'Residual program is the projection of H times the W operators',
     'For every maximum residual order (0 to 6), Hamiltonian rank (0 to 2) and number of supplied W operators, the '
     'generated residual of order p is the sum, over the Hamiltonian operators h^m_n with m <= p whose partner '
     'W_{p-m+n} is supplied (quadratic operators only if the truncation is quadratic), of h^m_n contracted through its n '
     'lower mode labels with W_{p-m+n}, with coefficient 1/(m! n! (p-m)!). Nothing else is added.',
     ['programs', 'configurations', 'inputs'],
     'every residual order 0..6, Hamiltonian rank 0..2, number of supplied W operators and tensor value',
     'Stored files reach order 2 only and are never executed.',
     ['termfactory/code_residual_equations.py'],
     ['generate_residual_data', 'construct_prefactor', 'simplified_prefactor', 'generate_p_term', '_residual_terms_einsum',
      'write_residual_function_string'],
     TV, 'translation_validation', SYM)

prop('P05', 'Full-CC document prints every valid term exactly once with its coefficient',
     'For every Hamiltonian rank, cluster rank, Taylor order and projection rank within the truncation, ground state or '
     'excited, with terms in f kept or removed, the right-hand side printed for each projection operator (every one up to '
     'the projection rank, once) consists of exactly the products of one h and at most S amplitudes t (each of rank 1 to '
     'the cluster rank) whose labels can be fully paired: every label of a t goes to h or to the projection, the labels '
     'left over are paired between h and the projection and counted by the powers of f and f-bar. Each product is printed '
     'once, in the group (fully connected, linked disconnected, unlinked disconnected) its pairing puts it in, with '
     'coefficient x!/(m! n! k!), where h has m upper and n lower labels, k is the number of t factors and x the number of '
     'different t factors connected to h (a bare h has coefficient 1); all terms of a projection carry the same free '
     'labels, and each summed label occurs exactly once as an upper and once as a lower label.',
     ['programs', 'configurations'],
     'every combination of truncation numbers, projection, Hamiltonian operator and multiset of amplitudes',
     'Tests compare a few stored documents as text; completeness and uniqueness of the enumeration over all pairings is '
     'never stated.',
     ['termfactory/latex_full_cc.py'],
     ['_filter_out_valid_s_terms', '_generate_valid_s_n_operator_permutations',
      '_generate_all_valid_t_connection_permutations', '_generate_all_omega_h_connection_permutations',
      '_remove_duplicate_s_permutations', '_generate_explicit_connections', '_seperate_s_terms_by_connection',
      '_build_latex_prefactor', '_make_latex', '_linked_condensed_adjust_t_terms'],
     TV, 'translation_validation', SYM)

prop('P06', 'Full-CC left-hand sides are the derivative and energy terms of the expansion',
     'For every projection operator the printed left-hand side is i times the sum, over every multiset of amplitudes t whose '
     'upper and lower labels together match the projection, of that product with one factor at a time differentiated with '
     'respect to tau plus that product times epsilon (i epsilon for the zero-order projection). It does not depend on the '
     'Hamiltonian rank, Taylor order or treatment of f, and each equation stands in the section named after its rank.',
     ['programs', 'configurations'],
     'every projection up to rank 4, every product of amplitudes, every truncation',
     'Tests compare a few stored documents; nothing states that the enumeration is complete or free of repetitions.',
     ['termfactory/latex_full_cc.py'],
     ['_generate_left_hand_side', '_wrap_align_environment', 'generate_omega_operator'],
     TV, 'translation_validation', SYM)

prop('P07', 'W-operator document prints the full partition expansion',
     'The ground-state document lists W^0 to W^n, each once and in order; W^n is the symmetrised sum over every partition '
     'of n of the corresponding product of powers of amplitudes, each partition once, with coefficient one over the product '
     'of the factorials of the multiplicities. The thermal document does the same for every W^m_n with m >= 1 up to the '
     'maximum order (mixed operators collect the products of two or more amplitudes).',
     ['programs', 'configurations'],
     'every maximum order, every operator and every partition',
     'Tests compare stored text for small orders.',
     ['termfactory/latex_w_equations.py', 'termfactory/helper_funcs.py'],
     ['ground_state_w_equations_latex', 'excited_state_w_equations_latex', 'generate_w_prefactor', 'generate_t_terms_group',
      'generate_labels_on_w'],
     TV, 'translation_validation', SYM)

prop('P08', 'Full-CC program computes the ground-state terms of the projected equations',
     'For every truncation, the residual that the generated full-CC program computes for a projection with n lower labels '
     'is the sum of every ordered matrix product of one h and at most S amplitudes whose labels pair completely (all lower '
     'labels of h are summed with amplitudes, all other labels are free), with coefficient x!/(m! n! k!) times the number of '
     'permutations of equal amplitudes (for a single amplitude: times the permutations of the free labels; a bare h has '
     'coefficient 1). A product is included exactly when the run-time flags allow the rank of its h and the rank of its '
     'largest amplitude, it is added by the function of the group it belongs to, and the residual function adds the three '
     'groups once each; projections with upper labels get nothing, excited-state runs are refused, and the truncation is '
     'checked to include singles.',
     ['programs', 'configurations', 'inputs'],
     'every truncation, run-time flag, projection, ordered product of amplitudes and tensor value',
     'Tests compare emitted text with stored files and never run it; a missing, duplicated or mis-indexed einsum in another '
     'truncation would go unnoticed.',
     ['termfactory/code_full_cc.py', 'termfactory/latex_full_cc.py'],
     ['_write_cc_einsum_python_from_list', '_build_full_cc_python_prefactor', '_simplify_full_cc_python_prefactor',
      '_multiple_perms_logic', '_full_cc_einsum_vibrational_components', '_generate_full_cc_compute_functions'],
     TV, 'translation_validation', SYM)

prop('P09', 'Optimised full-CC program stays in step with the default one',
     'For every truncation and run-time flag, the optimised functions of the generated full-CC program use exactly as many '
     'precomputed contractions as are declared, each applied to operands of the shapes it was declared for, and add the same '
     'products of operands with the same coefficients as the default functions. The declared contractions are usable and '
     'the top-level function returns those of every projection.',
     ['programs', 'configurations', 'inputs'],
     'every truncation, run-time flag and projection',
     'Declaration and use are emitted by different functions that must agree item by item; tests compare text of a few cases.',
     ['termfactory/code_full_cc.py'],
     ['_write_cc_optimized_paths_from_list', '_write_cc_einsum_python_from_list', '_generate_optimized_paths_functions',
      '_write_optimized_master_paths_function'],
     TV, 'translation_validation', SYM)


prop('P10', 'z_t document prints every h z contraction and every dt z product once',
     'For every Hamiltonian rank, Z rank and projection rank (1 to 6), the z_t document prints one equation per projection '
     'operator, in the section named after its rank: i times the derivative of z on the left, and on the right the bare h '
     'with the labels of the projection, every contraction of one h and one z whose labels can be fully paired within the '
     'truncation (h and z summed over c pairs, projection labels on h or z), exactly once, and minus i times every product '
     'of a t derivative and z that splits the labels of the projection. A contraction has coefficient one over the '
     'factorials of the numbers of labels paired h-z, h-upper, z-upper and h-lower, and f-bar to the number of h-z pairs; '
     'all terms of an equation carry the same free labels.',
     ['programs', 'configurations'],
     'every Hamiltonian, Z and projection rank up to 6, f terms kept or removed, every contraction',
     'Tests compare a few stored documents as text; completeness and coefficients over all contractions are never stated.',
     ['termfactory/latex_zhz.py'],
     ['generate_z_t_symmetric_latex', '_filter_out_valid_z_terms', '_generate_valid_z_n_operator_permutations',
      '_generate_all_o_h_z_connection_permutations', '_generate_explicit_z_connections', '_build_hz_latex_prefactor',
      '_build_hz_term_latex_labels', '_build_fifth_z_term', '_prepare_third_z_latex'],
     TV, 'translation_validation', SYM)

prop('P11', 'eT z documents print every contraction of singles, h and z once',
     'For every truncation, the right-hand-side eT z document prints, per projection of n labels, every contraction of k '
     'single amplitudes (k up to the limit), one h and one z whose labels can be fully paired within the truncation, '
     'exactly once, with coefficient 1/(k! c! d! e!) (c labels paired between h and z, d and e projection labels on h and z) '
     'and f-bar to the number of contracted labels, besides the bare h and every dt z product. The left-hand-side document '
     'prints likewise every contraction of singles with one t derivative and z and with the derivative of z. All terms of '
     'an equation carry the same free labels and each equation stands in the section named after its rank.',
     ['programs', 'configurations'],
     'every Hamiltonian, Z and projection rank up to 6, up to 4 singles factors (8 for Z ranks up to 3), both sides, every contraction',
     'Tests compare a few stored documents as text; completeness and coefficients over all contractions are never stated.',
     ['termfactory/latex_eT_zhz.py', 'termfactory/latex_zhz.py'],
     ['generate_eT_z_t_symmetric_latex', '_filter_out_valid_eTz_terms', '_generate_valid_eT_z_n_operator_permutations',
      '_generate_all_o_eT_h_z_connection_permutations', '_remove_duplicate_t_tuple_permutations',
      '_generate_explicit_eT_z_connections', '_build_eThz_latex_prefactor', '_build_eT_hz_term_latex_labels'],
     TV, 'translation_validation', SYM)

prop('P12', 'eT z program computes every right-hand-side contraction of singles, h and z',
     'For every truncation, the right-hand side that the generated program computes for a projection of n labels is the sum '
     'over every contraction of single amplitudes (up to the limit), one h and one z whose labels can be fully paired, with '
     'coefficient 1/(a! b! c! d! e!) (a and b singles on h and z, c pairs between h and z, d and e projection labels on h and '
     'z). A contraction is included exactly when the run-time flags allow singles, the rank of its h and the rank of its z; '
     'terms with and without singles are computed by two functions that are added once each. The optimised variants compute '
     'the same, every projection up to the requested rank has a function, and a program requested for the ground state '
     'refuses hot-band runs.',
     ['programs', 'configurations', 'inputs'],
     'every truncation (fewer singles factors for large ranks), run-time flag, projection, contraction and tensor value',
     'Tests compare emitted text with stored files and never run it.',
     ['termfactory/code_eT_zhz.py', 'termfactory/latex_eT_zhz.py'],
     ['_generate_eT_zhz_einsums', '_write_third_eTz_einsum_python', '_collect_z_contributions',
      '_handle_multiline_same_prefactor', '_build_eT_zhz_python_prefactor', '_simplify_eT_zhz_python_prefactor',
      '_eT_zhz_einsum_vibrational_components', '_write_master_eT_zhz_compute_function'],
     TV, 'translation_validation', SYM)

prop('P13', 'eT z program computes every left-hand-side contraction',
     'For every truncation, the left-hand side that the generated program computes for a projection of n labels is the sum '
     'over every contraction of single amplitudes with one t derivative and z, and over every contraction of at least one '
     'single amplitude with the derivative of z, whose labels can be fully paired, with one over the product of the '
     'factorials of the numbers of labels in each pairing as coefficient. A contraction is included exactly when the run-time '
     'flags allow singles, the rank of the t derivative and the rank of z; the derivative of z itself is left out. The '
     'optimised variants compute the same, and the terms with and without singles are added once each.',
     ['programs', 'configurations', 'inputs'],
     'every truncation (fewer singles factors for large ranks), run-time flag, projection, contraction and tensor value',
     'Tests compare emitted text with stored files and never run it.',
     ['termfactory/code_eT_zhz.py', 'termfactory/latex_eT_zhz.py'],
     ['_eT_zhz_einsum_electronic_components_lhs', '_eT_zhz_einsum_vibrational_components_lhs',
      '_generate_eT_zhz_einsums', '_write_third_eTz_einsum_python', '_build_eT_zhz_python_prefactor'],
     TV, 'translation_validation', SYM)


prop('P14', 'Out-of-range truncations are refused before anything is written',
     'A truncation is accepted exactly when every number its request needs is present, at least 1 and at most its documented '
     'maximum (6 for the Hamiltonian, cluster, Taylor and projection ranks, 8 for the singles expansion, 1 for the singles '
     'rank), and no unknown name is given. Every generator that takes a truncation refuses one that is not acceptable with an '
     'error and without creating or changing the output file; so do the generators of the W, dt and residual programs with an '
     'order above 6 (residuals: or a Hamiltonian rank above 2). Checking never changes the truncation that was passed in.',
     ['inputs', 'configurations'],
     'every integer value of every number, every subset of the names, unknown names, each of the three kinds of truncation and '
     'each of the eight generators',
     'Tests sample a few bad truncations; acceptance is a statement about all values of all numbers.',
     ['termfactory/truncations.py', 'termfactory/truncation_keys.py', 'termfactory/latex_zhz.py'],
     ['__verify_keys', '_verify_zhz_truncations', '_verify_fcc_truncations', '_verify_eT_z_t_truncations', 'truncation_maximums'],
     SE, 'model_checking', PATHS)

prop('P15', 'Truncation files load back as what was saved; anything else is refused',
     'Saving a valid truncation and loading the file gives the same names and numbers again, whatever the order of the names '
     'and whatever the file is called and held before, and leaves the saved truncation untouched. A file is accepted exactly when its names '
     'are those of one of the three kinds of request and every number is within its range, and the truncation returned holds '
     'exactly the numbers of the file. Files that are cut short, are no JSON object or hold something else than numbers are '
     'refused.',
     ['inputs', 'fault_sequences'],
     'every truncation of the three kinds, every subset of names and every integer value in a file, every truncated file',
     'Tests sample a few files.',
     ['termfactory/truncations.py', 'termfactory/truncation_keys.py'],
     ['save_trunc_to_JSON', '_save_to_JSON', 'load_trunc_from_JSON', '_load_from_JSON',
      'change_dictionary_keys_from_enum_members_to_strings', 'change_dictionary_keys_from_strings_to_enum_members', 'key_list_type'],
     SE, 'model_checking', PATHS)

prop('P16', 'The command line runs exactly the requested generator',
     'For every combination of options, the command line runs exactly one generator: the LaTeX or (with the code option) the '
     'Python one of the named ansatz, or of the ansatz inferred from the number of truncation values; it passes on the numbers '
     'in the documented order (given directly or through a file), the ground/excited state, f-term and left/right-hand-side '
     'options, and the output file named after them, and a truncation given directly is also saved in a file that loads back '
     'as the same truncation. A request that is ambiguous (numbers and a file), incomplete, names an unknown ansatz or one '
     'that does not fit the truncation, or asks for code that does not exist is refused and no generator runs. Besides the '
     'truncation and the log (in the file named with the log option, on the terminal if asked for) a run leaves nothing but the '
     'file that generator writes when it is called directly, and fails when the generator does.',
     ['inputs', 'configurations'],
     'every combination of options, ansatz names, sources and every valid truncation number',
     'The driver is not run by the tests at all.',
     ['termfactory/driver.py', 'termfactory/_glue_.py'],
     ['prepare_parsed_arguments', '_make_trunc', '_generate_python', '_generate_latex', '_gen_wrapper_full_cc_python',
      '_gen_wrapper_eT_zhz_python', '_gen_wrapper_full_cc_latex', '_gen_wrapper_z_t_latex', '_gen_wrapper_eT_z_t_latex'],
     SE, 'model_checking', PATHS)

prop('P17', 'Output depends on the request only',
     'The file a generator writes is a function of the request: the same request gives the same bytes in every process, '
     'whatever the hash seed (the iteration order of sets of strings), the clock, the environment variables and the machine, '
     'whatever requests, refused or carried out, were made '
     'earlier in the same process, whatever the output file held before (only the thermal W document keeps something: the '
     'preamble of a LaTeX document it updates) and whatever its name. No other file is written. A refused request leaves the output file as it was. No generator changes the '
     'truncation it is given.',
     ['histories', 'schedules', 'configurations'],
     'every set-iteration order, every history of requests to any of the ten generators, every option, old file contents, file names',
     'Tests run each generator in one process with one hash seed and compare a few outputs; they cannot vary the order or the '
     'history.',
     ['termfactory/latex_full_cc.py', 'termfactory/code_full_cc.py', 'termfactory/code_eT_zhz.py', 'termfactory/latex_eT_zhz.py',
      'termfactory/latex_zhz.py', 'termfactory/latex_w_equations.py', 'termfactory/code_w_equations.py',
      'termfactory/code_dt_equations.py', 'termfactory/code_residual_equations.py', 'termfactory/helper_funcs.py'],
     ['_simplify_full_cc_python_prefactor', 'generate_full_cc_latex', 'generate_full_cc_python', 'generate_eT_zhz_python'],
     SE, 'model_checking', PATHS)

prop('P18', 'Partition and permutation helpers are complete and free of repetitions',
     'For every n, the partition helpers list exactly the partitions of n of their family (all; at most one part larger than '
     'one; that without n itself; two or more parts larger than one; ones only), each once, parts and list in descending '
     'order. The unique permutations of a collection are exactly its distinct arrangements, sorted; the generated symmetrising '
     'function sums a tensor over every permutation of its mode axes exactly once.',
     ['inputs', 'programs'],
     'every n up to 10, every tuple of parts, every collection of up to four items, every axis order',
     'Tests list a few small cases.',
     ['termfactory/helper_funcs.py'],
     ['_partitions', 'generate_mixed_partitions_of_n', 'generate_linked_disconnected_partitions_of_n',
      'generate_un_linked_disconnected_partitions_of_n', 'unique_permutations', 'build_symmetrizing_function'],
     SE, 'model_checking', PATHS)

prop('P19', 'Every document is a complete, well-formed LaTeX source',
     'For every truncation and option a document generator accepts, the text it writes is one complete document (class, preamble, '
     'one document environment, nothing after it; the thermal W text is a body without a preamble): braces, environments and '
     '\\left ... \\right nest, no symbol carries two superscripts or two subscripts, no script or fraction lacks its argument, '
     'alignment marks and line breaks stand in alignments only and at most one mark in a row of a split, no blank line interrupts an '
     'aligned formula, and every command used is defined in the preamble (a symbol prints the letter it is named after, a command with an argument '
     'prints the argument, no two print the same) or belongs to LaTeX or to a package the preamble loads.',
     ['inputs', 'configurations'],
     'every rank 1..6 of each number (in the combinations of checks/p19.py), every option of the five documents',
     'Tests compare two or three stored documents; a brace lost for one rank or one option is only seen when LaTeX fails.',
     ['termfactory/latex_full_cc.py', 'termfactory/latex_zhz.py', 'termfactory/latex_eT_zhz.py', 'termfactory/latex_w_equations.py',
      'termfactory/reference_latex_headers.py'],
     ['_make_latex', 'generate_full_cc_latex', 'generate_z_t_symmetric_latex',
      'generate_eT_z_t_symmetric_latex', 'ground_state_w_equations_latex', 'reference_latex_headers'],
     SE, 'model_checking', PATHS)

prop('P20', 'Every generated program is complete and its pieces fit together',
     'For every request a program generator accepts, the module it writes is a complete program: it parses; every module and name it '
     'imports exists; every name it uses is imported, defined in it or assigned before the use, whatever the truncation and ansatz '
     'flags are at run time; no function is defined twice; the functions a user calls (one per order, default and optimised, and those '
     'that prepare the contraction paths) are there; its calls of its own functions, and the calls of the time-derivative program to the '
     'residual program of the same order, fit their signatures; attributes it takes from numpy, opt_einsum and the truncation and '
     'ansatz objects exist; every einsum, declared contraction, accumulation and symmetrisation it carries out is well-formed '
     '(subscripts match the operands, each label has one dimension, results are added to arrays of their own shape) for every number A '
     'of surfaces and N of modes. Not included: the optimised full-CC contraction paths that are declared without subscripts or '
     'indexed by a tuple (known findings of P09). A W program of maximum order M is run for truncations it covers (M >= 3; '
     'doubles M >= 4, triples M >= 5, quadruples M >= 6).',
     ['programs', 'configurations', 'inputs'],
     'every accepted number 1..6 and option of the five program generators (grids in checks/p20.py), every truncation and ansatz flag of '
     'the program, every number of surfaces and modes in 2..9',
     'Tests compare a few programs with stored text and never import or run one; an undefined name or wrong axis shows for one order under one flag only.',
     ['termfactory/code_w_equations.py', 'termfactory/code_dt_equations.py', 'termfactory/code_residual_equations.py',
      'termfactory/code_full_cc.py', 'termfactory/code_eT_zhz.py', 'termfactory/code_import_statements_module.py'],
     ['generate_w_operators_string', 'generate_dt_amplitude_string', 'generate_python_code_for_residual_functions',
      '_generate_full_cc_compute_functions', '_generate_eT_zhz_python_file_contents', 'full_cc_import_statements'],
     'symbolic execution of the generator and path-sensitive symbolic interpretation of the generated module (flags and dimensions symbolic), decided by z3',
     'model_checking', SYM.split(',')[0] + '; the emitted module is interpreted with symbolic flags and symbolic dimensions, and z3 is asked for a flag assignment and dimensions under which a name is undefined or shapes disagree')


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                    anchors=dict(files=p['files'],
                                                 mechanism=[dict(name=m, where=p['files'][0]) for m in p['mech']]))) + '\n')
    checks = [dict(property=p['id'], quick_cmd=f"PYTHONHASHSEED=0 python3-vt run.py {p['id']}",
                   thorough_cmd=f"PYTHONHASHSEED=0 python3-vt run.py {p['id']} --tier thorough",
                   technique=p['technique'], level=p['level'], level_note=p['note']) for p in P if p['technique']]
    man = dict(version=1, setup_cmd="python3-vt -c 'import z3, numpy' && python3-vt -m compileall -q symx checks run.py",
               checks=checks, not_applicable=[dict(property=i, reason=r) for i, r in NA])
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
