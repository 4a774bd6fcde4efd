PARSER = ('Every obligation of the contracts (accepted texts, remainder, value read through the public accessors, error kind, '
          'absence of panics, termination rank) of all parser functions the property rests on, for all texts of any length; '
          'callees by contract only. Trusted: rustc up to MIR, the symbolic executor, the modelled nom combinator leaves and '
          'std functions listed in the evidence.')
EQS = ('Equational contracts of the public functions (code = specification, and no panic), for all arguments: both sides are executed '
       'symbolically from the compiled MIR and every outcome pair becomes an obligation. ')
CLAIMS = {i: PARSER for i in ('C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C15', 'C16')}
CLAIMS['C14'] = 'A lemma over the specifications (layout.py: one structural case per specification), so it holds where the code meets them. ' + PARSER
CLAIMS['C01'] = EQS + 'Vocabulary parsers by their text contracts. ' + PARSER
CLAIMS['C02'] = EQS + 'All pairs of requirements; declared sets of any size. One known finding is pinned by an existing test.'
CLAIMS['C03'] = EQS + ('IEEE arithmetic by the floating point theory of z3. That nom\'s float and core\'s f32::from_str give the nearest '
                       'float is assumed (dependencies). ') + PARSER
CLAIMS['C04'] = EQS + ('The interning table is an arbitrary table; Mutex, Arc, binary_search_by and Vec::insert by their documented meaning. '
                       'Proved for the builds with and without the interning feature.')
CLAIMS['C17'] = EQS + 'Generic conversions for the instances the crate uses.'
CLAIMS['C19'] = EQS + 'Loops by symbolic summaries of one generic iteration; collections of any length.'
CLAIMS['C18'] = 'Contracts of every entry point (same acceptance, remainder, value and error kind as the parser contract), for all texts. ' + PARSER
CLAIMS['C20'] = EQS + 'By structural induction: the parts of a value are compared, cloned and hashed by their own contracts. Generic types for the instances the crate uses.'
NOT_APPLICABLE = {}
NOTES = 'See DESIGN.md.'
