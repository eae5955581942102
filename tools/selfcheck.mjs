// Setup: makes sure the compiler API the analysis needs is there.
import { ts } from '../lib/project.mjs';
console.log('typescript', ts.version);
