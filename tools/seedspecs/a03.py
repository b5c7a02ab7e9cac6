ID='A03-deny-limit'
PROP='A03'
NAT=('A03', 0, 3000)
EDITS=[('src/regex.c','''		if (ret == PCRE2_ERROR_NOMATCH)
''','''		if (ret == PCRE2_ERROR_NOMATCH ||
		    ret == PCRE2_ERROR_MATCHLIMIT)
''')]
NEEDS='a deny pattern whose match against the callsign exceeds the match limit'
BREAKS='a callsign that could not be matched against the deny pattern is permitted'
