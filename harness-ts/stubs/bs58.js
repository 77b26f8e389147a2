// Stand-in for bs58 4 (not installed here).
import { enc as encode, dec as decode } from "@solana/web3.js";
export { encode, decode };
export default { encode, decode };
