'''Bounded exhaustive model-checking harness for beam_telescope_analysis.'''
