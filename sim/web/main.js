'use strict';
const native = require(process.argv[2]);
const prelude = require(require('path').join(__dirname, 'prelude.js'))(native);
native.start(process.argv.slice(2), prelude);
