import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    P.append(d)
CM='ASAPy/CovManipulation.py';XS='ASAPy/XsecSampler.py';AI='ASAPy/AceIO.py';EC='ASAPy/EndfToCov.py';ST='ASAPy/AsapyCovStorage.py';NJ='ASAPy/njoy.py'
p('C01','Correlation and covariance conversions are exact and mutually inverse',
 "Converting standard deviations plus a correlation matrix to a covariance matrix yields, for every pair of variables, the correlation times both standard deviations, with the variances on the diagonal and an exactly symmetric result built from the upper triangle. Converting a covariance matrix to a correlation matrix divides every off-diagonal element by the square root of the absolute product of the two variances and puts ones on the diagonal, again symmetric. Neither conversion modifies its inputs, and with positive standard deviations and a unit-diagonal correlation the two are inverses of each other.",
 ['inputs'],'for every number of variables and every real std-dev vector and square matrix',
 'The tests sample two 2x2/3x3 matrices; index and triangle mistakes at other positions or sizes are invisible.',
 [CM],[('pairwise double loop over the upper triangle and symmetrisation',CM+':correlation_to_cov, cov_to_correlation')])
p('C02','Modified Cholesky factors every symmetric matrix',
 "For every real symmetric matrix the modified Cholesky routine returns a permutation matrix P, a lower triangular L with positive diagonal and a shift vector e such that the symmetrically permuted input plus diag(e) equals L times its transpose. The shift is non-negative, and the input matrix is left unchanged. When the input is sufficiently positive definite the shift is zero up to rounding.",
 ['inputs'],'for every size and every symmetric real matrix, definite, semidefinite or indefinite, including ties on the pivots',
 'One 3x3 example is tested; pivoting ties, indefinite blocks and size-1 matrices are not.',
 [CM],[('pivoted Gill-Murray-Wright elimination',CM+':gmw_cholesky')])
p('C03','Every sampled variable keeps its requested marginal distribution',
 "In a correlated sample of any size, each sampled variable takes exactly one value in each of the n equal-probability strata of its requested marginal: normal with the given mean and standard deviation, or log-normal whose mean and standard deviation equal the given ones. Log-normal samples are always positive and finite. Imposing the correlation only reorders the values of a variable, it never changes them.",
 ['inputs','histories'],'for every mean/std/correlation input, every number of samples, every random state and both distributions',
 'Tests check sample moments loosely for one small case; stratification and parameter conversion hold per value and per random draw.',
 [CM],[('LHS quantiles per variable then reordering',CM+':sample_with_corr, lhs_uniform_sample, lhs_normal_sample, rank, order')])
p('C04','Variables without usable uncertainty are pinned at their mean',
 "A correlated sample always has one row per requested sample and one column per input variable in input order. Every variable whose standard deviation is (numerically) zero, whose correlation diagonal is zero, or whose mean is zero in log-normal sampling (where means are not negative) takes exactly its input mean in every sample, in any combination with other such variables, including when all are such. The values of the other variables depend only on their own means, deviations and correlations, and the caller's arrays are unchanged.",
 ['inputs','configurations'],'for every combination of pinned and sampled variables at every position',
 'Combinations of the three pinning causes are exponential; tests cover single causes in 3-variable cases.',
 [CM],[('selection mask and reinsertion',CM+':sample_with_corr')])
p('C05','Correlated samples realise the requested correlation',
 "Given more samples than variables, for every symmetric positive definite correlation matrix (and, when it is not definite, the nearby matrix it is modified to), the score matrix whose column ranks order the samples has exactly the target second moment, so the rank correlation of the returned samples converges to that of the requested correlation. For log-normal sampling the target is the documented normal-to-log-normal transform of the requested correlation. Each returned column is ordered exactly like the corresponding score column.",
 ['inputs','histories'],'for every correlation matrix and every random state',
 'Tests compare one correlation loosely; a wrong transpose, factor or permutation still looks correlated for 2 variables or symmetric patterns.',
 [CM],[('Iman-Conover with Cholesky factors, GMW fallback',CM+':sample_with_corr, col_independent_matrix, rank, order')])
p('C06','Correlation repair is minimal and yields a positive definite matrix',
 "Preparing a stored correlation for sampling returns a symmetric matrix whose block of variables with positive diagonal has only positive eigenvalues: eigenvalues above the threshold and all eigenvectors are kept and only the others are raised to a small positive number. A correlation that already is positive definite above the threshold is unchanged, rows and columns of variables with a zero diagonal are untouched at their own positions, and an all-zero correlation is left untouched.",
 ['inputs'],'for every stored symmetric correlation matrix and every pattern of absent (zero-diagonal) groups',
 'No test runs the repair; it depends on the spectrum and on which groups are absent.',
 [XS],[('eigen-decomposition repair on the non-zero-diagonal block',XS+':XsecSampler.__init__, _fix_non_pos_semi_def_matrix_eigen')])
p('C07','Covariances load from the store normalised, oriented and for the right pair',
 "Loading a nuclide/reaction pair returns the standard-deviation table and correlation stored under exactly that (material, reaction, material, reaction) key, the second pair defaulting to the first. The correlation is the stored one scaled by a single positive factor such that the largest diagonal element is one, group lower energy bounds are below upper bounds with the two columns swapped only if they were reversed, and every other column is as stored. The covariance derived from a loaded pair equals correlation times both standard deviations per group pair.",
 ['inputs','histories'],'for every store content, key and diagonal scale',
 'No test loads a store; depends on the scale and on bound ordering in stored data.',
 [XS],[('key formatting, normalisation and bound swap',XS+':XsecSampler.load_zaid_mt, calc_cov')])
p('C08','Relative and absolute samples agree and negative removal is exact',
 "The sampler returns one row per energy group labelled from 1 and one column per kept sample numbered consecutively from 0, with relative values equal to absolute values divided by the group mean. When negative removal is requested exactly the samples with some negative group value are dropped, kept ones are unchanged and in order; when clipping is requested exactly the negative values become zero. Groups with zero mean carry their absolute sampled value in the relative table, so no relative value is ever missing or infinite.",
 ['inputs','configurations'],'for every store content, sample type, removal/clipping option and random state',
 'Which samples go negative depends on random draws; zero-mean groups are not tested.',
 [XS],[('sample checking and relative conversion',XS+':XsecSampler.sample, _sample_check, sample_xsec')])
p('C09','Group values land on exactly the energies of their group',
 "Mapping group values to a continuous energy grid gives, for every energy e, the value of the group whose interval (lower bound, upper bound] contains e, with the lowest bound itself belonging to the lowest group. Energies between the highest group bound and a larger given maximum belong to the highest group, and energies outside [minimum, maximum] get the given outside value. The result has one value per input energy and neither the energies nor the group values are modified.",
 ['inputs'],'for every decreasing group structure, every energy grid (unsorted, on boundaries, outside) and every min/max option',
 'One test maps a handful of interior points; boundary and out-of-range energies are not settled.',
 [XS],[('searchsorted on bounds and label lookup',XS+':map_groups_to_continuous')])
p('C10','The covariance store accepts only well-formed data and returns it unchanged',
 "A correlation is accepted into the store exactly when it is square with equal row and column group labels, and a standard-deviation table exactly when both its lower and its upper energy bounds strictly decrease with group number; otherwise an error is raised and nothing is written. New empty tables have groups 1..n and the documented columns. What was stored for one (material, reaction, material, reaction) key is read back unchanged under that key and no other key's data changes.",
 ['inputs','histories'],'for every table content and sequence of additions',
 'Tests build empty tables and one bad example; acceptance must be exact at every position.',
 [ST],[('shape, label and ordering checks before put',ST+':check_correlation_df, check_stddev_df, add_corr_to_store, add_stddev_to_store, create_corr_df, create_stddev_df')])
p('C11','Matrix output of the covariance converter is parsed faithfully',
 "For every file in the fixed-width matrix format, the parsed group bounds, cross sections and covariance are exactly the numbers in their 10-character fields in file order, however many fields and lines each block has and even when fields touch, and the standard deviation is the relative deviation times the cross section. The covariance is the row-major square matrix with one row per cross section. A file with an error marker or without data blocks raises an error instead of returning data.",
 ['inputs'],'for every group count, field content and line layout of the format',
 'Tests read one stored file; field joins, negative and touching fields vary with data.',
 [EC],[('block location and 10-char splitting',EC+':read_boxer_out_matrix')])
p('C12','Covariances written for sampling are complete and bounded',
 "Processing converter output stores, for the given nuclide and reaction, a correlation that is symmetric, free of missing values, within [-1, 1], and equal to the one derived from the parsed covariance wherever that is defined and bounded. The stored table has upper and lower bounds from consecutive group bounds, cross sections and deviations as parsed, relative deviations equal to deviation over cross section, and groups with zero cross section and zero deviation get zero cross section and a tiny positive deviation. Output that reports an error stores nothing.",
 ['inputs'],'for every parsed covariance including zero, negative and ill-composed ones',
 'Tests process no such file; zero and ill-composed entries depend on data.',
 [EC],[('conversion, clipping, NaN handling and storage',EC+':process_cov_to_h5')])
p('C13','Editing a reaction in an ACE table is isolated and reversible to read',
 "After setting the cross section of a reaction (or the fission neutron yield, MT 452), reading it gives exactly the values set, reading it unadjusted gives the values of the file, and all other reactions, energies and files are unchanged. The reaction is then reported as adjusted and its first original values are remembered across repeated edits. Values returned by reading are independent copies for cross sections, and a length mismatch or an absent reaction raises an error and changes nothing.",
 ['inputs','histories'],'for every table and every sequence of reads and edits',
 'Tests need an ACE file that is not in the tree; aliasing depends on the sequence of calls.',
 [AI],[('deep copies, original table and adjusted set',AI+':AceEditor.__init__, get_energy, get_sigma, set_sigma, get_nu_distro, set_nu_distro')])
p('C14','Redundant cross sections always equal their adjusted sums',
 "After reactions are adjusted and sum rules applied, every redundant (summed) reaction present in the table equals its original values plus, at each of its energies, the total change of its adjusted constituents, each counted exactly once. Reactions that contain no adjusted constituent are unchanged, and absent redundant reactions are skipped without losing their constituents' changes from the totals above them. Applying the rules again without new edits changes nothing.",
 ['inputs','histories','configurations'],'for every set of present and adjusted reactions, threshold grids and edit sequences',
 'The set of present/adjusted reactions is exponential; the tests that touch it need a missing ACE file.',
 [AI],[('sum-rule table walked from finest to coarsest',AI+':AceEditor.apply_sum_rules, _check_if_mts_present')])
p('C15','A set fission spectrum is a normalised distribution consistent with its CDF',
 "Setting the fission spectrum to any positive densities leaves, for every incident energy, a cumulative distribution that ends at exactly one (up to rounding) and a density proportional to the given one by the same normalisation factor. The change of the cumulative distribution between neighbouring outgoing energies equals the density change times the energy step before normalisation, so setting the unchanged density of a normalised spectrum changes nothing. Incident and outgoing energies and other reactions are unchanged, and a density list of wrong size is rejected.",
 ['inputs'],'for every tabulated spectrum and every density list',
 'The tests that touch it need a missing ACE file and only look at one spectrum.',
 [AI],[('cumulative correction and normalisation',AI+':AceEditor.set_chi_distro, get_chi_distro')])
p('C16','Rewriting an ACE file changes exactly the replaced numbers',
 "Reading an ACE file for rewriting and writing it back unmodified keeps the header byte for byte and every data number's text in order, four per line in 20-character columns. Replacing an array changes exactly the first maximum-count occurrences of that whole sequence of numbers to the new values and nothing else, and an array that is not in the file or has another length raises an error and changes nothing. Old-style and new-style headers are both handled.",
 ['inputs','histories'],'for every file content, number of values and replacement sequence',
 'Tests need a missing ACE file; partial-number matches and repeated arrays depend on data.',
 [AI],[('single-line text, formatted search and replace, column writer',AI+':WriteAce')])
p('C17','Each sampled ACE file carries exactly its own sample',
 "For every sample number exactly one process writes exactly one ACE file, which when read back has each sampled reaction equal to the base cross section times that sample's relative group value at every energy, redundant reactions adjusted by the sum rules and everything else as in the base file. Zero cross sections stay zero where the relative value is a multiplier, the sampled fission spectrum and neutron yield follow the same rule, and the base file is never modified. Samples do not influence each other's files.",
 ['inputs','histories','schedules'],'for every set of reactions, samples, number of processes and base file',
 'No test runs the writer; it needs an ACE file, a store and several processes.',
 [XS,AI],[('per-rank loop over samples with fresh editor and writer',XS+':write_sampled_data'),('text replacement',AI+':WriteAce')])
p('C18','Generated NJOY decks are consistent in their tape numbers',
 "In every generated processing deck each tape a module reads was an input tape or written by an earlier module, no two modules write the same tape, and every file announced as an output belongs to a tape the deck writes. Each requested temperature, the material number, the group count with all group bounds, and the weighting option appear in every module that needs them. The covariance outputs come first and alternate with their plots in the order the covariance chain expects.",
 ['configurations','inputs'],'for every combination of processing options, temperatures, group structures and fission data',
 'No test generates a deck for most option combinations.',
 [NJ],[('running tape counter and templates',NJ+':make_njoy_run')])
p('C19','ENDF numbers and records are read exactly',
 "Every ENDF number in 11-column form, with or without an exponent letter (E or e), sign, or surrounding blanks, is read as the number it denotes. Control, list, tabulated and two-dimensional records return exactly the announced number of items in order for every count, leaving the reader positioned right after the record. The two reader modules agree on every record.",
 ['inputs'],'for every number shape and every record length',
 'Tests read one evaluation file; partial last lines and unusual number shapes vary with data.',
 ['ASAPy/data/endf.py','ASAPy/endf.py'],[('e-less float regex and fixed-column slicing','ASAPy/data/endf.py:float_endf, get_cont_record, get_head_record, get_list_record, get_tab1_record, get_tab2_record')])
p('C20','Tabulated functions interpolate, integrate and add exactly',
 "Evaluating a tabulated function at any point of its range gives the value its interpolation law (histogram, linear or logarithmic in either axis) prescribes for the interval of the region containing the point, the tabulated value at tabulated points whose x occurs once, and zero outside the range (beyond rounding), for scalars and arrays alike. Its running integral is the exact area under each interval's law accumulated from the first point. The sum of linear tabulated functions equals the pointwise sum at all their points.",
 ['inputs'],'for every table, interpolation law, region layout and evaluation point',
 'No test evaluates tables beyond one path; region boundaries and laws 3-5 are untested.',
 ['ASAPy/data/function.py'],[('region loop with masks','ASAPy/data/function.py:Tabulated1D.__call__, integral, sum_functions')])
p('C21','ACE libraries read the same in text and binary form',
 "Every well-formed ACE text library converts to a binary library from which the same tables in the same order with equal name, weight ratio, temperature, index arrays and data values are read. Asking for particular tables returns exactly those tables, and asking for a single table by name returns that one or raises an error. Data numbers written without an exponent letter are read as the numbers they denote.",
 ['inputs','histories'],'for every number of tables, data length (including full records) and header style',
 'No test converts a library; record boundaries and multi-table files are not exercised.',
 ['ASAPy/data/ace.py'],[('record-aligned writer and readers','ASAPy/data/ace.py:ascii_to_binary, Library, get_table')])
p('C22','Nuclide identifiers convert consistently',
 "Every ground-state or metastable nuclide name decodes to the atomic number, mass number and metastable state that it was built from, and names round-trip. Every ZAID decodes to the same atomic and mass number under both metastable conventions, with the documented convention (400 added for a metastable state, americium-242 exceptions) deciding the state.",
 ['inputs'],'for every element, mass number and metastable state',
 'No test enumerates nuclides; the mass-number folding and the americium exceptions are special cases.',
 ['ASAPy/data/data.py','ASAPy/data/ace.py'],[('name formatting and parsing','ASAPy/data/data.py:gnd_name, zam'),('ZAID decoding','ASAPy/data/ace.py:get_metadata')])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
for x in P:
    assert len(x['title'])<=80,x['id']
    assert x['statement'].count('. ')<=2, (x['id'],x['statement'].count('. '))
