import * as R from 'react';
export const jsx = R.jsx, jsxs = R.jsx, jsxDEV = R.jsx, Fragment = R.Fragment;
