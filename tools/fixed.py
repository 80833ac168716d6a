for _p, _c, _w in [
 ("A01","fbfc63c","check_endog reshaped the caller's 1-D array in place"),
 ("A01","53ffd28","symmetrize left the transform of the caller's weights changed"),
 ("A01","cdb1af8","regimes error models appended to the caller's cols2regi list"),
 ("A01","bb18052","Skater_reg.fit changed the caller's weights transform and data_reg dictionary"),
 ("A01","a6b319b","SUR classes expanded regimes and lags inside the caller's dictionaries"),
 ("A02","2eda22d","importing spreg added chisqprob to scipy.stats"),
 ("A03","a871b5e","building the summary and checking inputs printed"),
 ("A03","76d6bd0","pooled ML error printed the enforced method instead of recording a warning"),
 ("A03","d784f2b","specification searches printed the out-of-bounds message without mprint"),
 ("A03","13b260f","panel data layout note was printed instead of raised as a Python warning"),
 ("A03","4f12d99","endogenous regimes classes printed clustering errors and failed later"),
 ("B04","4f12d99","endogenous regimes classes failed with an unrelated error after a clustering error"),
 ("B03","09f7696","BaseML_Lag returned a half-built result for an unsupported method"),
 ("B03","733c9cd","AKtest returned without a statistic for an unsupported case"),
 ("B04","7888756","BSK_tests fitted the pooled model from the wrong data and could not compute LM2 alone"),
 ("B04","1c5b66b","pooled error panels failed with nonspat_diag=False"),
 ("B04","d6bd60d","BaseML_LagRE used undefined likelihood functions"),
 ("B04","af19ccc","Skater_reg affinity metrics failed when called with two data sets"),
 ("B04","2ea0f4f","sur_dictxy and sur_dictZ used dict.has_key"),
 ("B04","895bd4f","PooledOLS failed with robust and no kernel weights"),
 ("D16","200426c","dgp_spdurbin and dgp_gns did not return None on weights of the wrong size"),
 ("D01","f547441","names of spatially lagged regressors and instruments ignored 'All' with several variables"),
 ("B02","e2d05b9","slx_vars was not handed on when regimes were given"),
 ("D19","35949ca","stge_pre returned the wrong label when the AK test could not be computed"),
 ("B02","ee2a793","GMM_Error did not hand slx_vars and hard_bound on to GMM_Error_Regimes"),
 ("B02","cb5d405","OLS with regimes ignored vif silently"),
 ("B02","29a0de0","SURlagIV dropped the names given for endogenous variables and instruments with regimes"),
 ("D05","61d6653","robust=\"white\" with kernel weights reported the HAC variance"),
 ("D05","b58f320","robust=\"HAC\" accepted by the checks was not treated as HAC by the regimes routes"),
 ("D10","7e273a4","instruments of Durbin lag models with other endogenous variables skipped one lag order"),
 ("B04","d8cf04b","slx_lags above one with slx_vars as a list failed in set_endog"),
 ("D10","d3242b3","set_endog_sparse repeated lag orders for w_lags above two"),
 ("D01","72941f5","instrument names with a slx_vars list did not match the instruments"),
 ("D07","a12b1af","breusch_pagan and koenker_bassett failed when z was given as an array"),
 ("D15","e79e381","Wald failed when the constants q were given as an array"),
 ("D15","90ad81b","_get_weighted_var failed when endogenous variables were given"),
 ("D11","3d38fc5","the power method for the average direct impact stopped at the first zero or negative term (rook lattices, negative coefficients)"),
 ("D17","42e7608","splogdet of a dense matrix with a negative determinant had the opposite sign of the sparse result"),
 ("D12","8fc4683","the probit likelihood ratio test against the constant-only model used k degrees of freedom"),
 ("D13","3a3e760","the score of the SUR lag LM test summed a matrix product instead of an element by element product"),
 ("D11","78adf09","i_multipliers failed for a pandas Series as id and misplaced rows for a data frame with an index of its own"),
 ("D01","034a1a6","flex_wx named the additional spatial lags in another order than their columns"),
 ("C02","0171fef","name_y of separately estimated regimes listed the characters of the names"),
 ("D01","b09b060","the constant of GM_Error_Hom and GM_Endog_Error_Hom was labelled as an ordinary variable"),
 ("D01","5bfc596","the first variable of ML_ErrorFE was labelled as the constant"),
 ("D01","433bb8e","lambda of a regime was named without separator in GM_Endog_Error_Het_Regimes and GM_Combo_Het_Regimes"),
 ("D01","8c97571","the constants of separately estimated GM_Error_Regimes were labelled as ordinary variables"),
 ("D01","82cc019","GM_Lag_Regimes with slx_lags rejected every list given as cols2regi"),
 ("D01","486f2f5","GM_Lag_Regimes mislabelled spatial lags of X with a fixed constant, fixed lags or slx_vars"),
 ("D07","db12d15","the common factor test failed in regimes models with partial or fixed spatial lags"),
 ("D11","f545b37","impacts of regimes Durbin models used the wrong spatial lags with slx_vars or fixed coefficients"),
 ("B05","c697ca7","GM_Lag_Regimes with lags by regime set no warning for coefficients outside the bounds"),
 ("B05","4a2979a","hard_bound was ignored for the spatial lag coefficient of combo models"),
 ("B01","867038b","regimes estimators accepted endogenous variables and instruments with more rows than y"),
 ("B01","e98d9ac","panels accepted boolean and object y"),
 ("B06","58e375f","panels documented for pandas objects failed with a Series"),
 ("B06","bd8c4df","ML_Error_Regimes failed with a Series as x and regimes"),
]:
    fixed(_p, _c, _w)
