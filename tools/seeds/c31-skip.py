id='c31-skip'; prop='C31'
needs='a generated file that is empty or unchanged in size compared with the one on disk'
breaks='a file whose size did not change is not written'
edits=[('gengokit/gengokit.go','','')]
